"""Contracts of the two search spaces Ell and EllStable."""
import ast

from .base import *
from . import ellcalc as ec
from pyvc.loops import SpecMismatch
from pyvc.solve import Forall

ELL = "ellalgo.ell:Ell"
STB = "ellalgo.ell_stable:EllStable"


def make_space(I, qual, n):
    """an arbitrary reachable state: constructor run symbolically, then mutable state replaced by symbols"""
    ci = I.src.cls(qual)
    if ci is None:
        raise Unsupported(f"{qual} not found")
    x0 = I.symarr("x_center", (n,), owner="x_center")
    val = I.fresh("val0")
    I.assume(val > 0)
    o = I.instantiate(ci, [val, x0], {})
    known = {"_mq": lambda: I.symarr("mq", (n, n)), "_xc": lambda: I.symarr("xc", (n,)),
             "_kappa": lambda: I.fresh("kappa"), "_tsq": lambda: I.fresh("tsq0")}
    for a in known:
        if a not in o.attrs:
            raise Unsupported(f"attribute {a} disappeared")
    for a in sorted(written_outside_init(ci) - set(known)):
        v = o.attrs.get(a)
        if v is None or isinstance(v, (Obj,)):
            raise Unsupported(f"unknown mutable state {a}")
        if is_boollike(v):
            o.attrs[a] = I.fresh(a, z3.BoolSort())
        elif is_intlike(v):
            o.attrs[a] = I.fresh(a, IZ)
        elif is_num(v):
            o.attrs[a] = I.fresh(a)
        elif isinstance(v, Arr):
            o.attrs[a] = I.symarr(a, v.shape)
        else:
            raise Unsupported(f"unknown mutable state {a}")
        declare(o, a)
    declare(o, "no_defer_trick", *known)
    for a, f in known.items():
        o.attrs[a] = f()
    o.attrs["no_defer_trick"] = I.fresh("no_defer", z3.BoolSort())
    I.assume(o.attrs["_kappa"] > 0)
    for v in list(o.attrs.values()):
        if isinstance(v, Obj):
            ec.mark_n(v, n)
            if v.cls is I.src.cls(ec.CALC):
                declare(v, "use_parallel_cut").attrs["use_parallel_cut"] = I.fresh("use_parallel_cut", z3.BoolSort())
    return o


def make_cut(I, n, c):
    g = I.symarr("g", (n,), owner="gradient of the cut")
    b0, b1 = I.fresh("beta0"), I.fresh("beta1")
    form = I.choose(4, "form of beta")
    if form == 0:
        return g, b0, (b0, None)
    if form == 1:
        return g, (b0, b1), (b0, b1)
    if form == 2:
        a = I.lit([b0, b1])
        a.owner = "offsets of the cut"
        return g, a, (b0, b1)
    return g, (b0,), (b0, None)


class Logged:
    """strategy contract that logs what it was asked and what it answered"""

    def __init__(self, base, prop):
        self.c = base(prop)
        self.qual = self.c.qual
        c = self.c

        def apply(I, n, T, b0, b1, up=True):
            I.log.append([c.kind, T, b0, b1, None])
            k = len(I.log) - 1
            I.log[k][4] = "raise"
            r = type(c).apply(c, I, n, T, b0, b1)
            I.log[k][4] = r
            return r
        c.apply = apply

    def call(self, I, env):
        return self.c.call(I, env)


class UpdateTask(Task):
    max_paths = 4000

    def __init__(self, prop, cls, method, kind):
        super().__init__(prop)
        self.cls, self.kind = cls, kind
        self.qual = f"{cls}.{method}"
        self.title = self.qual
        self.contracts = [Logged(c, prop) for c in ec.CALC_DISPATCH]
        self.ckind = {c.kind: c for c in (ec.Dispatch(prop), ec.DispatchCentral(prop), ec.DispatchQ(prop))}
        if cls == STB:
            self.loops = [Forward(), ForwardRows(), Havoc()] if prop == "C04" else [Forward(), ForwardRows(), Backward(), BackwardColumns(), RankOne()]

    def setup(self, I):
        I.log = []
        I.nodiv = self.prop == "C04"
        n = I.fresh("n", IZ)
        I.assume(n >= 2)
        o = make_space(I, self.cls, n)
        g, beta, (b0, b1) = make_cut(I, n, self.kind)
        if b1 is not None:
            for v in o.attrs.values():
                if isinstance(v, Obj) and "use_parallel_cut" in v.attrs:
                    if not I.branch(v.attrs["use_parallel_cut"]):
                        b1 = None
        S = State(I, self.cls, o, g, n)
        I.spec = S
        I.task = self
        # the cut is in the domain of the strategy (offsets nonnegative where required, nonempty interior for q)
        I.assume(z3.Implies(S.T > 0, self.ckind[self.kind].pre(n, S.T, b0, b1)))
        if self.prop in ("C01", "C02", "C03", "C05"):
            I.assume(z3.Implies(S.T > 0, self.ckind[self.kind].interior(n, S.T, b0, b1)))
        return [o, (g, beta)], {}, (o, g, b0, b1, n, S)

    def check(self, I, ctx, out):
        o, g, b0, b1, n, S = ctx
        I.where = self.qual
        xc, mq, kap, tsq = o.attrs["_xc"], o.attrs["_mq"], o.attrs["_kappa"], o.attrs["_tsq"]
        if not (isinstance(xc, Arr) and isinstance(mq, Arr) and is_num(kap) and is_num(tsq)):
            raise Unsupported("state representation changed")
        zero = Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), g.get(i) == 0))
        st = self.ckind[self.kind].status(n, S.T, b0, b1)
        p = self.prop
        if out[0] == "raise":
            if p in ("C04", "C05"):
                if out[1] == "ValueError":
                    I.prove("ValueError only for a zero gradient", zero, assume=False)
                elif out[1] == "AssertionError" and "raise" in st:
                    I.prove("AssertionError only for a negative one-sided offset", z3.And(S.nonzero, st["raise"]), assume=False)
                else:
                    I.prove(f"no exception {out[1]}", False, assume=False)
            if p == "C04":
                S.unchanged(I, o)
            return
        v = out[1]
        if not isinstance(v, EnumMember):
            raise Unsupported("update does not return a status")
        if p in ("C04", "C05"):
            I.prove("a zero gradient is refused with ValueError", S.nonzero, assume=False)
        I.assume(S.nonzero)
        if p in ("C03", "C05"):
            I.prove("tsq is the squared half-width along the gradient", same(tsq, S.T), assume=False)
        if p == "C04":
            I.prove(f"status {v.name} exactly where the contract says", st.get(v.name, z3.BoolVal(False)), assume=False)
        if v.name != "Success":
            if p in ("C04", "C05"):
                S.unchanged(I, o)
            return
        calls = [c for c in I.log]
        if p == "C04":
            return
        if len(calls) != 1:
            raise Unsupported("the update does not consult its strategy exactly once")
        kind, T, c0, c1, res = calls[0]
        if kind != self.kind:
            I.prove(f"{self.qual} consults the {self.kind} strategy", False, assume=False)
            return
        I.prove("the strategy is given the squared half-width", same(T, S.T), assume=False)
        if self.kind != "central":
            I.prove("the strategy is given the offsets of the cut", AND(same(c0, b0)), assume=False)
        if b1 is not None:
            I.prove("the strategy is given the second offset", c1 is not None and same(c1, b1), assume=False)
        elif c1 is not None:
            I.prove("a one-sided cut stays one-sided", False, assume=False)
        if res in (None, "raise") or res[1] is None:
            I.prove("Success only when the strategy says so", False, assume=False)
            return
        rho, sg, de = res[1]
        S.post(I, o, rho, sg, de, p)


class State:
    """pre-state and specification terms"""

    def __init__(self, I, cls, o, g, n):
        self.cls, self.n = cls, n
        self.o = o
        self.xc0, self.mq0, self.k0 = o.attrs["_xc"].snap(), o.attrs["_mq"].snap(), o.attrs["_kappa"]
        self.xcobj = o.attrs["_xc"]
        self.nodefer = o.attrs["no_defer_trick"]
        self.g = g.snap()
        G, M, k = self.g, self.mq0, self.k0
        wit = I.fresh("sk!nz", IZ)
        p = I.fresh("g_nonzero", z3.BoolSort())
        self.nonzero = p
        I.assume(z3.Implies(p, z3.And(wit >= 0, wit < n, G(wit) != 0)))
        I.assume(Q(1, lambda i: z3.Implies(z3.And(z3.Not(p), i >= 0, i < n), G(i) == 0)))
        if cls == ELL:
            I.assume(Q(2, lambda i, j: z3.Implies(z3.And(i >= 0, j >= 0, i < n, j < n), M(i, j) == M(j, i))))
            self.q = lambda i: I.sumover(0, n, lambda j: mul(M(i, j), G(j)))
            self.omega = I.sumover(0, n, lambda i: mul(G(i), self.q(i)))
        else:
            W = I.freshfn("w", 1)
            Qv = I.freshfn("q", 1)
            self.W, self.Qv = W, Qv
            L = lambda r, c: M(r, c)
            D = lambda i: M(i, i)
            self.L, self.D = L, D
            self.res = lambda r, c: sub(G(r), I.sumover(0, c, lambda k: mul(L(r, k), W(Z(k)))))
            I.assume(Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), D(i) > 0)))
            I.assume(Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), W(i) == self.res(i, i))))
            I.assume(Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), Qv(i) == D(i) * W(i) - I.sumover(add(i, 1), n, lambda j: mul(L(j, i), Qv(Z(j)))))))
            self.q = lambda i: Qv(Z(i))
            self.omega = I.sumover(0, n, lambda i: mul(D(i), mul(W(Z(i)), W(Z(i)))))
        # positive definiteness of M at g
        I.assume(z3.Implies(p, R(self.omega) > 0))
        I.assume(z3.Implies(z3.Not(p), R(self.omega) == 0))
        self.T = R(k) * R(self.omega)

    def unchanged(self, I, o):
        n = self.n
        xc, mq = o.attrs["_xc"], o.attrs["_mq"]
        I.prove("rejected cut: centre unchanged", Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), same(xc.get(i), self.xc0(i)))), assume=False)
        if self.cls == ELL:
            I.prove("rejected cut: shape unchanged", Q(2, lambda i, j: z3.Implies(z3.And(i >= 0, j >= 0, i < n, j < n), same(mq.get(i, j), self.mq0(i, j)))), assume=False)
        else:
            I.prove("rejected cut: factors unchanged", Q(2, lambda i, j: z3.Implies(z3.And(j >= 0, j <= i, i < n), same(mq.get(i, j), self.mq0(i, j)))), assume=False)
        I.prove("rejected cut: scale unchanged", same(o.attrs["_kappa"], self.k0), assume=False)

    def post(self, I, o, rho, sg, de, p):
        n, k0, om = self.n, R(self.k0), R(self.omega)
        xc, mq, kap = o.attrs["_xc"], o.attrs["_mq"], R(o.attrs["_kappa"])
        T = self.T
        rng1 = lambda i: z3.And(i >= 0, i < n)
        rng2 = lambda i, j: z3.And(i >= 0, j >= 0, i < n, j < n)
        if p in ("C01", "C05"):
            I.prove("new centre is xc - rho P g / tau^2", Q(1, lambda i: z3.Implies(
                rng1(i), same(xc.get(i), self.xc0(i) - R(rho) / om * R(self.q(i))))), assume=False)
        scale = z3.If(self.nodefer, z3.And(kap == 1), kap == R(de) * k0)
        if p in ("C03", "C05"):
            I.prove("scale is delta kappa, or 1 without deferral", scale, assume=False)
            I.prove("scale stays positive", kap > 0, assume=False)
        if self.cls == ELL:
            # P' = delta (P - sigma (Pg)(Pg)^T / tau^2),  P = kappa M
            I.prove("new ellipsoid is delta (P - sigma Pg (Pg)^T / tau^2)", Q(2, lambda i, j: z3.Implies(rng2(i, j), same(
                kap * R(mq.get(i, j)), R(de) * (k0 * R(self.mq0(i, j)) - R(sg) * k0 * R(self.q(i)) * R(self.q(j)) / om)))), assume=False)
            if p == "C03":
                I.prove("new shape is symmetric", Q(2, lambda i, j: z3.Implies(rng2(i, j), same(mq.get(i, j), mq.get(j, i)))), assume=False)
        else:
            t, Dn, Ln = self.rank(I, sg)
            f = z3.If(self.nodefer, R(de) * k0, z3.RealVal(1))
            I.prove("new diagonal factor", Q(1, lambda i: z3.Implies(rng1(i), same(mq.get(i, i), f * Dn(i)))), assume=False)
            I.prove("new unit lower factor", Q(2, lambda i, j: z3.Implies(z3.And(j >= 0, j < i, i < n), same(mq.get(i, j), Ln(i, j)))), assume=False)

    def rank(self, I, sg):
        """spec of the rank-one update: t(0) = omega (1-sigma)/sigma, t(j+1) = t(j) + d_j w_j^2,
        d'_j = d_j t(j)/t(j+1), l'_kj = l_kj + d_j w_j / t(j+1) * r(k, j+1)"""
        if hasattr(self, "_rank"):
            return self._rank
        t = I.freshfn("t", 1)
        W, D, L = self.W, self.D, self.L
        om = R(self.omega)
        I.assume(z3.Implies(R(sg) > 0, t(0) == om * (1 - R(sg)) / R(sg)))
        I.assume(Q(1, lambda j: z3.Implies(z3.And(j >= 0, j < self.n), t(j + 1) == t(j) + D(j) * W(j) * W(j))))
        # explicit triggers on t(j)
        fa = I.foralls[-1]
        fa.triggers = [(t, {0: (0, 0)})]
        fa.full = True
        Dn = lambda j: R(D(j)) * t(Z(j)) / t(Z(add(j, 1)))
        Ln = lambda k, j: R(L(k, j)) + R(D(j)) * W(Z(j)) / t(Z(add(j, 1))) * R(self.res(k, add(j, 1)))
        self._rank = (t, Dn, Ln)
        return self._rank


# ------------------------------------------------------------------ loop invariants of EllStable._update_core

def self_mq(v):
    return v.I.spec.o.attrs["_mq"]


class Forward:
    """w = L^-1 g by columns; the strict upper triangle keeps the products l_rc w_c"""
    group = "forward"

    def inv(self, v):
        S, I, it, n = v.I.spec, v.I, v.it, v.I.spec.n
        a = v.only(("arr",))
        mq = self_mq(v)
        if ("self._mq", None) not in {(k[0].split(".", 1)[-1] if False else k[0], k[1]) for k in v.P["mod"]} and not any(k[0].endswith("_mq") for k in v.P["mod"]):
            raise SpecMismatch("shape storage is not written")
        if v.mod_locals(("real", "int")):
            raise SpecMismatch("scalar carried")
        w, m = a.snap(), mq.snap()
        W = S.W
        return [
            ("partial forward substitution", Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), same(
                w(i), ite(cmp("<", it, i), S.res(i, it), W(Z(i))))))),
            ("factors untouched", Q(2, lambda r, c: z3.Implies(z3.And(c >= 0, c <= r, r < n), same(m(r, c), S.mq0(r, c))))),
            ("products stored above the diagonal", Q(2, lambda r, c: z3.Implies(z3.And(c >= 0, c < r, r < n, c < Z(it)), same(
                m(c, r), R(S.L(r, c)) * W(Z(c)))))),
        ]


class ForwardRows:
    """the same by rows: rows below b are final, the others still hold the gradient"""
    group = "forward"

    def inv(self, v):
        S, it, n = v.I.spec, v.it, v.I.spec.n
        a = v.only(("arr",))
        if not any(k[0].endswith("_mq") for k in v.P["mod"]):
            raise SpecMismatch("shape storage is not written")
        if v.mod_locals(("real", "int")):
            raise SpecMismatch("scalar carried")
        b = add(it, sub(n, v.n))
        w, m = a.snap(), self_mq(v).snap()
        W = S.W
        return [
            ("rows solved so far", Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), same(
                w(i), ite(cmp("<", i, b), W(Z(i)), S.res(i, 0)))))),
            ("factors untouched", Q(2, lambda r, c: z3.Implies(z3.And(c >= 0, c <= r, r < n), same(m(r, c), S.mq0(r, c))))),
            ("products stored above the diagonal", Q(2, lambda r, c: z3.Implies(z3.And(c >= 0, c < r, r < n, r < Z(b)), same(
                m(c, r), R(S.L(r, c)) * W(Z(c)))))),
        ]


class BackwardColumns:
    """q = L^-T z by columns: entries from c on are final, the others have the columns from c on subtracted"""
    group = "backward"

    def inv(self, v):
        S, I, n = v.I.spec, v.I, v.I.spec.n
        a = v.only(("arr",))
        if any(k[0].endswith("_mq") for k in v.P["mod"]):
            raise SpecMismatch("shape storage is written")
        q = a.snap()
        c = sub(n, v.it)
        return [("columns subtracted so far", Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), same(
            q(i), ite(cmp(">=", i, c), S.Qv(Z(i)), R(S.D(i)) * S.W(Z(i)) - I.sumover(c, n, lambda j: mul(S.L(j, i), S.Qv(Z(j)))))))))]


class Backward:
    """q = L^-T z from the last row upwards"""
    group = "backward"

    def inv(self, v):
        S, n = v.I.spec, v.I.spec.n
        a = v.only(("arr",))
        if any(k[0].endswith("_mq") for k in v.P["mod"]):
            raise SpecMismatch("shape storage is written")
        q = a.snap()
        first = sub(sub(n, 1), v.it)  # rows >= first are final
        return [("partial backward substitution", Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), same(
            q(i), ite(cmp(">=", i, first), S.Qv(Z(i)), R(S.D(i)) * S.W(Z(i)))))))]


class RankOne:
    """rank-one update of the factors, column by column"""

    def inv(self, v):
        S, I, it, n = v.I.spec, v.I, v.it, v.I.spec.n
        a = v.only(("arr",))
        sc = v.mod_locals(("real",))
        if len(sc) != 1 or not any(k[0].endswith("_mq") for k in v.P["mod"]):
            raise SpecMismatch("one running scalar and the shape storage expected")
        if not I.log or I.log[-1][4] in (None, "raise") or I.log[-1][4][1] is None:
            raise SpecMismatch("no parameters yet")
        sg = I.log[-1][4][1][1]
        t, Dn, Ln = S.rank(I, sg)
        x = v.local(sc[0])
        r, m = a.snap(), self_mq(v).snap()
        W = S.W
        tt = t(Z(it))
        return [
            ("running total", same(x, tt)),
            ("running total is positive", tt > 0),
            ("residual of the gradient", Q(1, lambda k: z3.Implies(z3.And(k >= Z(it), k < n), same(r(k), S.res(k, it))))),
            ("diagonal so far", Q(1, lambda k: z3.Implies(z3.And(k >= 0, k < n), same(
                m(k, k), ite(cmp("<", k, it), Dn(k), S.D(k)))))),
            ("lower factor so far", Q(2, lambda k, c: z3.Implies(z3.And(c >= 0, c < k, k < n), same(
                m(k, c), ite(cmp("<", c, it), Ln(k, c), S.L(k, c)))))),
            ("products above the diagonal kept", Q(2, lambda k, c: z3.Implies(z3.And(c >= 0, c < k, k < n), same(
                m(c, k), R(S.L(k, c)) * W(Z(c)))))),
        ]


class Havoc:
    """no knowledge about the loop (what it modifies becomes arbitrary)"""
    shared = True

    def inv(self, v):
        return []


METHODS = (("update_bias_cut", "bias"), ("update_central_cut", "central"), ("update_q", "q"))


class InitTask(Task):
    """the constructor builds the ball / axis-aligned ellipsoid around its own copy of the centre"""

    def __init__(self, prop, cls):
        super().__init__(prop)
        self.cls = cls
        self.qual = cls + ".__init__"
        self.title = self.qual

    def setup(self, I):
        n = I.fresh("n", IZ)
        I.assume(n >= 2)
        x0 = I.symarr("x_center", (n,), owner="x_center")
        o = Obj(I.src.cls(self.cls))
        o.serial = I.new_serial()
        if I.choose(2, "val") == 0:
            val = I.fresh("val")
            I.assume(val > 0)
            P = lambda i, j: ite(cmp("==", i, j), val, 0)
        else:
            val = I.symarr("val", (n,), owner="val")
            s = val.snap()
            I.assume(Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), s(i) > 0)))
            P = lambda i, j: ite(cmp("==", i, j), s(i), 0)
        return [o, val, x0], {}, (o, P, x0, n)

    def check(self, I, ctx, out):
        o, P, x0, n = ctx
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
        mq, k, xc = o.attrs.get("_mq"), o.attrs.get("_kappa"), o.attrs.get("_xc")
        if not (isinstance(mq, Arr) and isinstance(xc, Arr) and is_num(k)):
            raise Unsupported("state representation changed")
        I.prove("initial ellipsoid", Q(2, lambda i, j: z3.Implies(z3.And(i >= 0, j >= 0, i < n, j < n), same(mul(k, mq.get(i, j)), P(i, j)))), assume=False)
        I.prove("initial scale is positive", cmp(">", k, 0), assume=False)
        I.prove("initial centre", Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), same(xc.get(i), x0.get(i)))), assume=False)
        I.prove("the centre is a private copy", xc.root() is not x0, assume=False)


def tasks(prop):
    out = []
    classes = {"C01": (ELL,), "C02": (ELL,), "C03": (ELL,), "C04": (ELL, STB), "C05": (ELL, STB)}[prop]
    for c in classes:
        for m, k in METHODS:
            out.append(UpdateTask(prop, c, m, k))
    if prop in ("C03", "C05"):
        out += [InitTask(prop, c) for c in classes]
    return out
