"""Contracts of LDLTMgr (C12, C13, C14)."""
from .base import *
from pyvc.interp import SQRT
from pyvc.loops import SpecMismatch

MGR = "ellalgo.oracles.ldlt_mgr:LDLTMgr"


def make_mgr(I, n, spd=None):
    """manager in an arbitrary state (reused many times before)"""
    ci = I.src.cls(MGR)
    if ci is None:
        raise Unsupported("LDLTMgr not found")
    o = I.instantiate(ci, [n], {})
    for a in ("_storage", "wit"):
        if not isinstance(o.attrs.get(a), Arr):
            raise Unsupported("state representation changed")
    if not isinstance(o.attrs.get("pos"), tuple):
        raise Unsupported("state representation changed")
    o.attrs["_storage"] = I.symarr("storage", (n, n))
    o.attrs["wit"] = I.symarr("wit", (n,))
    p0, p1 = I.fresh("pos0", IZ), I.fresh("pos1", IZ)
    o.attrs["pos"] = (p0, p1)
    declare(o, "_storage", "wit", "pos")
    I.assume(z3.And(p0 >= 0, p1 >= 0, p1 <= n, z3.Or(p1 == 0, p0 < p1)))
    return o, p0, p1


class Spec:
    """u(s; i, j): entry of the elimination of A restarted at row s.
    u(s;i,j) = A(i,j) - sum_{s<=k<j} u(s;i,k)/u(s;k,k) u(s;j,k)"""

    def __init__(self, I, A, n):
        self.I, self.A, self.n = I, A, n
        U = I.freshfn("u", 3)
        self.U = U
        I.assume(Q(3, lambda s, i, j: z3.Implies(
            z3.And(s >= 0, s <= j, j <= i, i < n),
            U(s, i, j) == R(A(i, j)) - R(I.sumover(s, j, lambda k: mul(truediv(U(s, i, Z(k)), U(s, Z(k), Z(k))), U(s, j, Z(k))))))))
        fa = I.foralls[-1]
        fa.triggers = [(U, {0: (0, 0), 1: (1, 0), 2: (2, 0)})]
        fa.full = True

    def u(self, s, i, j):
        return self.U(Z(s), Z(i), Z(j))

    def block(self, m, s, hi, strictpos=True):
        """storage m holds the elimination on rows s..hi-1"""
        u = self.u
        return [
            ("unit lower factor below the diagonal", Q(2, lambda r, c: z3.Implies(
                z3.And(Z(s) <= c, c < r, r < Z(hi)), same(m(r, c), u(s, r, c) / u(s, c, c))))),
            ("elimination entries above the diagonal", Q(2, lambda r, c: z3.Implies(
                z3.And(Z(s) <= c, c < r, r < Z(hi)), same(m(c, r), u(s, r, c))))),
            ("pivots on the diagonal", Q(1, lambda r: z3.Implies(
                z3.And(Z(s) <= r, r < Z(hi)), same(m(r, r), u(s, r, r))))),
        ]

    def positive(self, s, hi):
        return ("earlier pivots are positive", Q(1, lambda r: z3.Implies(z3.And(Z(s) <= r, r < Z(hi)), self.u(s, r, r) > 0)))


def storage(v):
    return v.I.mgr.attrs["_storage"].snap()


def start_of(v):
    l = v.mod_locals(("int",))
    if not l:
        return 0
    if len(l) != 1:
        raise SpecMismatch(f"several running integers {l}")
    return v.local(l[0])


class Outer:
    def inv(self, v):
        I, it = v.I, v.it
        if v.outer is not None:
            raise SpecMismatch("not the outer loop")
        if not any(k[0].endswith("_storage") for k in v.P["mod"]):
            raise SpecMismatch("storage is not written")
        s = start_of(v)
        I.start = s
        S, m = I.spec, storage(v)
        p = I.mgr.attrs["pos"]
        out = [("restart row", z3.And(Z(s) >= 0, Z(s) <= Z(it))), ("no failure recorded", same(p[1], 0))]
        if I.nozero:
            out.append(("no restart without a zero pivot", same(s, 0)))
        out += S.block(m, s, it) + [S.positive(s, it)]
        out.append(("rows asked so far", Q(2, lambda r, c: z3.Implies(Z(I.asked.get(r, c)), r < Z(it)))))
        return out


class Inner:
    def inv(self, v):
        I, it = v.I, v.it
        if v.outer is None:
            raise SpecMismatch("not an inner loop")
        sc = v.mod_locals(("real",))
        if len(sc) != 1:
            raise SpecMismatch("one running scalar expected")
        i, s = v.outer, I.start
        S, m = I.spec, storage(v)
        j = add(s, it)
        x = v.local(sc[0])
        out = [("running entry", same(x, S.u(s, i, j)))]
        out += S.block(m, s, i)
        out.append(("row so far, below", Q(1, lambda c: z3.Implies(z3.And(Z(s) <= c, c < Z(j)), same(m(i, c), S.u(s, i, c) / S.u(s, c, c))))))
        out.append(("row so far, above", Q(1, lambda c: z3.Implies(z3.And(Z(s) <= c, c < Z(j)), same(m(c, i), S.u(s, i, c))))))
        out.append(("entries asked so far", Q(2, lambda r, c: z3.Implies(Z(I.asked.get(r, c)), z3.Or(r < Z(i), z3.And(r == Z(i), c <= Z(j)))))))
        return out


class FactorTask(Task):
    """factor / factor_with_allow_semidefinite against an arbitrary symmetric matrix given by a callback"""

    def __init__(self, prop, semi, nozero=False):
        super().__init__(prop)
        self.semi, self.nozero = semi, nozero
        self.qual = MGR + (".factor_with_allow_semidefinite" if semi else ".factor")
        self.title = self.qual + (" (no zero pivot)" if nozero else "")
        self.loops = [Outer(), Inner()]

    def setup(self, I):
        n = I.fresh("n", IZ)
        I.assume(n >= 1)
        o, p0, p1 = make_mgr(I, n)
        A = I.freshfn("A", 2)
        S = Spec(I, lambda i, j: A(Z(i), Z(j)), n)
        I.spec, I.mgr, I.nozero, I.start = S, o, self.nozero, 0
        if self.nozero:
            I.assume(Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), S.u(0, i, i) != 0)))
        I.asked = I.mkarr((n, n), lambda i, j: False, "bool")
        I.roots = {"asked": I.asked}

        def get_elem(I_, args, kw):
            i, j = args
            if not (is_intlike(i) and is_intlike(j)):
                raise Unsupported("callback index")
            I_.prove("callback asked on or below the diagonal only", AND(cmp(">=", j, 0), cmp("<=", j, i), cmp("<", i, n)), kind="callback")
            I_.prove("callback asked for each entry at most once", NOT(I_.asked.get(i, j)), kind="callback")
            I_.setat(I_.asked, (i, j), True)
            return A(Z(i), Z(j))

        return [o, Model("get_elem", get_elem)], {}, (o, n, S, p0, p1)

    def check(self, I, ctx, out):
        o, n, S, p0, p1 = ctx
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return
        b = I.truth(out[1])
        pos, st = o.attrs["pos"], o.attrs["_storage"].snap()
        if not (isinstance(pos, tuple) and len(pos) == 2):
            raise Unsupported("pos")
        s, e = pos
        I.prove("the answer agrees with the recorded failure position", Z(b) == (Z(e) == 0), assume=False)
        if I.branch(b):
            if not self.semi or self.nozero:
                nm, f = S.positive(0, n)
                I.prove("True only with all pivots positive", f)
                for nm, f in S.block(st, 0, n):
                    I.prove(f"on True: {nm}", f, assume=False)
        else:
            I.prove("failed block inside the matrix", z3.And(Z(s) >= 0, Z(s) < Z(e), Z(e) <= n))
            if not self.semi:
                I.prove("failed block starts at the first row", same(s, 0))
            for nm, f in S.block(st, s, e) + [S.positive(s, sub(e, 1))]:
                I.prove(f"on False: {nm}", f, assume=False)
            d = S.u(s, sub(e, 1), sub(e, 1))
            I.prove("on False: the last pivot is " + ("negative" if self.semi else "not positive"), d < 0 if self.semi else d <= 0, assume=False)
            if self.nozero:
                I.prove("without a zero pivot the failed block starts at the first row", same(s, 0), assume=False)


class BackRows:
    def inv(self, v):
        I, it = v.I, v.it
        if not any(k[0].endswith("wit") for k in v.P["mod"]):
            raise SpecMismatch("witness is not written")
        s, p = I.blk
        w = I.mgr.attrs["wit"].snap()
        first = sub(sub(p, 1), it)
        return [("witness entries from the end", Q(1, lambda c: z3.Implies(z3.And(c >= Z(first), c < p, c >= s), same(w(c), I.W(c)))))]


class WitnessTask(Task):
    qual = MGR + ".witness"
    title = qual
    loops = (BackRows(),)

    def setup(self, I):
        n = I.fresh("n", IZ)
        I.assume(n >= 1)
        o, s, p = make_mgr(I, n)
        m = o.attrs["_storage"].snap()
        W = I.freshfn("v", 1)
        I.W, I.mgr, I.blk = W, o, (s, p)
        I.assume(z3.Implies(p > 0, W(p - 1) == 1))
        I.assume(Q(1, lambda c: z3.Implies(z3.And(c >= s, c < p - 1), W(c) == -R(I.sumover(add(c, 1), p, lambda r: mul(m(r, c), W(Z(r))))))))
        return [o], {}, (o, n, s, p, m, o.attrs["wit"])

    def check(self, I, ctx, out):
        o, n, s, p, m, w0 = ctx
        if out[0] == "raise":
            I.prove("AssertionError exactly for a positive definite matrix", p == 0 if out[1] == "AssertionError" else False, assume=False)
            return
        I.prove("refused for a positive definite matrix", p != 0, assume=False)
        I.assume(p > 0)
        w = o.attrs["wit"]
        if not isinstance(w, Arr):
            raise Unsupported("wit")
        ws, st = w.snap(), o.attrs["_storage"].snap()
        I.prove("witness ends with 1 and solves L^T v = e", Q(1, lambda c: z3.Implies(z3.And(c >= s, c < p), same(ws(c), I.W(c)))), assume=False)
        if not is_num(out[1]):
            raise Unsupported("witness does not return a number")
        I.prove("returns minus the last pivot", same(out[1], neg(m(sub(p, 1), sub(p, 1)))), assume=False)
        I.prove("factors are kept", Q(2, lambda i, j: z3.Implies(z3.And(i >= 0, j >= 0, i < n, j < n), same(st(i, j), m(i, j)))), assume=False)
        q = o.attrs["pos"]
        I.prove("position is kept", z3.And(same(q[0], s), same(q[1], p)), assume=False)


class SymQuadTask(Task):
    qual = MGR + ".sym_quad"
    title = qual

    def setup(self, I):
        n = I.fresh("n", IZ)
        I.assume(n >= 1)
        o, s, p = make_mgr(I, n)
        I.assume(p > 0)
        F = I.symarr("F", (n, n), owner="matrix given to sym_quad")
        return [o, F], {}, (o, n, s, p, F.snap(), o.attrs["wit"].snap())

    def check(self, I, ctx, out):
        o, n, s, p, F, w = ctx
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return
        if not is_num(out[1]):
            raise Unsupported("sym_quad result")
        I.prove("sym_quad is v^T F v on the failed block", same(out[1], quad(I, s, p, w, F)), assume=False)
        st = o.attrs["wit"].snap()
        I.prove("witness is kept", Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), same(st(i), w(i)))), assume=False)


def quad(I, s, p, w, F):
    return I.sumover(s, p, lambda i: mul(w(i), I.sumover(s, p, lambda j: mul(F(i, j), w(j)))))


class SqrtTask(Task):
    qual = MGR + ".sqrt"
    title = qual

    def __init__(self, prop):
        super().__init__(prop)
        self.loops = [SqrtRows()]

    def setup(self, I):
        n = I.fresh("n", IZ)
        I.assume(n >= 1)
        o, s, p = make_mgr(I, n)
        m = o.attrs["_storage"].snap()
        I.mgr, I.m0, I.n = o, m, n
        I.assume(Q(1, lambda i: z3.Implies(z3.And(p == 0, i >= 0, i < n), m(i, i) > 0)))
        return [o], {}, (o, n, s, p, m)

    def check(self, I, ctx, out):
        o, n, s, p, m = ctx
        if out[0] == "raise":
            I.prove("AssertionError exactly for a non-definite matrix", p != 0 if out[1] == "AssertionError" else False, assume=False)
            return
        I.prove("refused for a non-definite matrix", p == 0, assume=False)
        I.assume(p == 0)
        Rm = out[1]
        if not (isinstance(Rm, Arr) and Rm.ndim == 2):
            raise Unsupported("sqrt result")
        I.same_dim(Rm.shape[0], n)
        I.same_dim(Rm.shape[1], n)
        I.prove("R is the scaled transpose of the unit factor", Q(2, lambda i, j: z3.Implies(z3.And(i >= 0, j >= 0, i < n, j < n),
                same(Rm.get(i, j), sqrt_entry(I, m, i, j)))), assume=False)


def sqrt_entry(I, m, i, j):
    r = SQRT(z3.simplify(R(m(i, i))))
    return ite(cmp("<", j, i), 0, ite(cmp("==", j, i), r, mul(m(j, i), r)))


class SqrtRows:
    def inv(self, v):
        I, it, n = v.I, v.it, v.I.n
        a = v.only(("arr",))
        r = a.snap()
        m = I.m0
        return [("rows of R so far", Q(2, lambda i, j: z3.Implies(z3.And(i >= 0, j >= 0, i < n, j < n),
                 same(r(i, j), ite(cmp("<", i, it), sqrt_entry(I, m, i, j), 0)))))]


def ghost_n(o):
    n = o.__dict__.get("ghost_n", o.attrs.get("_ndim"))
    if n is None:
        raise Unsupported("size of the manager")
    return n


class Factor(Contract):
    """the factorisation as seen by a caller: records the matrix it was asked about and forks on the answer"""
    qual = MGR + ".factor"

    def call(self, I, env):
        o, f = env["self"], env.get("get_elem")
        n = o.attrs.get("_ndim")
        return answer(I, o, callback_matrix(I, f, ghost_n(o)))


def callback_matrix(I, f, n):
    """the matrix a callback describes: one call at arbitrary indices on or below the diagonal"""
    bi, bj = I.fresh("cb!i", IZ), I.fresh("cb!j", IZ)
    npc = len(I.pc)
    I.li.push()
    I.dcache.append({})
    I.nosplit += 1
    try:
        for h in (bj >= 0, bj <= bi, bi < n):
            I.assume(h)
        v = I.call(f, [bi, bj], {})
    except NoSummary as ex:
        raise Unsupported(f"callback branches: {ex}")
    finally:
        I.nosplit -= 1
        I.li.pop()
        I.dcache.pop()
        I.pc = I.pc[:npc]
    if not is_num(v):
        raise Unsupported("callback value")
    return lambda i, j: I.subst(I.subst(v, bi, i), bj, j)


class Factorize(Contract):
    qual = MGR + ".factorize"

    def call(self, I, env):
        a = env["mat"]
        if not isinstance(a, Arr):
            raise Unsupported("factorize argument")
        s = a.snap()
        return answer(I, env["self"], lambda i, j: s(i, j))


class FactorSemi(Contract):
    """the semidefinite variant: True does not mean positive definite"""
    qual = MGR + ".factor_with_allow_semidefinite"

    def call(self, I, env):
        o = env["self"]
        r = answer(I, o, callback_matrix(I, env.get("get_elem"), ghost_n(o)))
        if r:
            o.ghost_state = "semi"
        return r


class IsSpd(Contract):
    qual = MGR + ".is_spd"

    def call(self, I, env):
        st = getattr(env["self"], "ghost_state", None)
        if st is None:
            return NotImplemented
        return st in ("spd", "semi")


def answer(I, o, A):
    """fork on positive definite / not; the witness block and vector become fresh"""
    o.ghost_calls = getattr(o, "ghost_calls", 0) + 1
    n = ghost_n(o)
    o.ghost_A = A
    if I.choose(2, "positive definite") == 0:
        o.ghost_state = "spd"
        o.attrs["pos"] = (0, 0)
        return True
    o.ghost_state = "failed"
    s, p = I.fresh("blk0", IZ), I.fresh("blk1", IZ)
    I.assume(z3.And(s >= 0, s < p, p <= n))
    o.attrs["pos"] = (s, p)
    return False


class Witness(Contract):
    qual = MGR + ".witness"

    def call(self, I, env):
        o = env["self"]
        st = getattr(o, "ghost_state", None)
        if st is None:
            I.prove("witness only after a factorisation", False, kind="protocol")
        if st == "spd":
            raise PyRaise("AssertionError")
        o.ghost_state = "witness"
        W = I.freshfn("v", 1)
        o.ghost_W = W
        n = ghost_n(o)
        o.attrs["wit"] = I.mkarr((n,), lambda i: W(Z(i)))
        ep = I.fresh("ep")
        I.assume(ep >= 0)
        o.ghost_ep = ep
        return ep


class SymQuad(Contract):
    qual = MGR + ".sym_quad"

    def call(self, I, env):
        o, F = env["self"], env["mat"]
        if getattr(o, "ghost_state", None) != "witness":
            I.prove("sym_quad only after the witness of this factorisation", False, kind="protocol")
        if not isinstance(F, Arr):
            raise Unsupported("sym_quad argument")
        s, p = o.attrs["pos"]
        W, f = o.ghost_W, F.snap()
        return quad(I, s, p, lambda i: W(Z(i)), f)


class FactorizeTask(Task):
    """factorize(mat) is factor on the entries of mat"""
    qual = MGR + ".factorize"
    title = qual
    contracts = (Factor("C12"),)

    def setup(self, I):
        n = I.fresh("n", IZ)
        I.assume(n >= 1)
        o, _, _ = make_mgr(I, n)
        o.ghost_n = n
        A = I.symarr("A", (n, n), owner="matrix given to factorize")
        return [o, A], {}, (o, n, A.snap())

    def check(self, I, ctx, out):
        o, n, A = ctx
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return
        if getattr(o, "ghost_calls", 0) != 1:
            raise Unsupported("factorize does not call factor exactly once")
        B = o.ghost_A
        I.prove("factor is asked about the given matrix", Q(2, lambda i, j: z3.Implies(z3.And(j >= 0, j <= i, i < n), same(B(i, j), A(i, j)))), assume=False)
        I.prove("the answer is passed on", Z(I.truth(out[1])) == z3.BoolVal(o.ghost_state == "spd"), assume=False)


def tasks(prop):
    if prop == "C12":
        return [FactorTask(prop, False), FactorizeTask(prop), SqrtTask(prop)]
    if prop == "C13":
        return [FactorTask(prop, False), FactorTask(prop, True), WitnessTask(prop), SymQuadTask(prop), SqrtTask(prop)]
    if prop == "C14":
        return [FactorTask(prop, True), FactorTask(prop, True, True), WitnessTask(prop)]
