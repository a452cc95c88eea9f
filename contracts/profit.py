"""Contracts of the profit oracles (C16, C17, C18).

Points are vectors of length 2 in the logarithm of the inputs.  profit(x) = exp(log(p A) + a.x) - v.exp(x).
The convexity of log-sum-exp is the lemma lean/Lse.lean, instantiated at the points in question."""
from .base import *
from pyvc.interp import ROUND

MOD = "ellalgo.oracles.profit_oracle"


def EX(t):
    return EXP(z3.simplify(R(t)))


def LG(t):
    return LOG(z3.simplify(R(t)))


def vec2(I, name, owner=None):
    return I.symarr(name, (2,), owner=owner)


def items(a):
    if not (isinstance(a, Arr) and a.ndim == 1):
        raise Unsupported("vector expected")
    return [a.get(0), a.get(1)]


class Prob:
    """one instance of the profit problem"""

    def __init__(self, logpA, logk, a, v):
        self.logpA, self.logk, self.a, self.v = logpA, logk, a, v

    def cobb(self, x):
        return add(self.logpA, add(mul(self.a[0], x[0]), mul(self.a[1], x[1])))

    def cost(self, x):
        return add(mul(self.v[0], EX(x[0])), mul(self.v[1], EX(x[1])))

    def profit(self, x):
        return sub(EX(self.cobb(x)), self.cost(x))

    def inlimit(self, x):
        return cmp("<=", x[0], self.logk)

    def good(self, x, gamma):
        """within the limit with profit at least gamma"""
        return AND(self.inlimit(x), cmp(">=", self.profit(x), gamma))

    def F(self, x, gamma):
        return sub(LG(add(gamma, self.cost(x))), self.cobb(x))

    def lse(self, I, x, y, gamma):
        """lemma (lean/Lse.lean): log(gamma + v.exp(.)) lies above its tangent at x"""
        sx, sy = add(gamma, self.cost(x)), add(gamma, self.cost(y))
        d = add(mul(mul(self.v[0], EX(x[0])), sub(y[0], x[0])), mul(mul(self.v[1], EX(x[1])), sub(y[1], x[1])))
        I.assume(z3.Implies(z3.And(R(gamma) >= 0, R(sx) > 0), R(LG(sy)) >= R(LG(sx)) + R(d) / R(sx)))


def cut_at(cut):
    if not (isinstance(cut, tuple) and len(cut) == 2):
        raise Unsupported("form of the cut")
    g, b = cut
    if not is_num(b):
        raise Unsupported("form of the cut")
    return items(g), b


def lhs(g, b, y, xc):
    return add(add(mul(g[0], sub(y[0], xc[0])), mul(g[1], sub(y[1], xc[1]))), b)


def make(I, cls, extra=()):
    up, sc, lim = I.fresh("unit_price"), I.fresh("scale"), I.fresh("limit")
    a, v = vec2(I, "elasticities", "elasticities"), vec2(I, "price_out", "price_out")
    av, vv = items(a), items(v)
    I.assume(z3.And(up > 0, sc > 0, lim > 0, R(vv[0]) > 0, R(vv[1]) > 0))
    ci = I.src.cls(f"{MOD}:{cls}")
    if ci is None:
        raise Unsupported("class not found")
    o = I.instantiate(ci, [(up, sc, lim), a, v] + list(extra), {})
    return o, up, sc, lim, av, vv


def anystate(I, om):
    """an arbitrary earlier history of the plain oracle"""
    ci = om.cls
    if I.find_member(ci, "idx") is None and "idx" not in om.attrs:
        raise Unsupported("state representation changed")
    declare(om, "idx", "q", "vy", "log_Cobb")
    om.attrs["idx"] = I.choose(3, "round robin position") - 1
    if I.choose(2, "used before") == 0:
        om.attrs["q"] = vec2(I, "old_q")
        om.attrs["vy"] = I.fresh("old_vy")
        om.attrs["log_Cobb"] = I.fresh("old_log_Cobb")


def idx_ok(I, om):
    i = I.getattr(om, "idx")
    I.prove("round robin position stays valid", AND(cmp(">=", i, -1), cmp("<=", i, 1)), assume=False)


class OptimTask(Task):
    qual = MOD + ":ProfitOracle.assess_optim"
    title = qual

    def setup(self, I):
        o, up, sc, lim, a, v = make(I, "ProfitOracle")
        anystate(I, o)
        P = Prob(LG(mul(up, sc)), LG(lim), a, v)
        x = vec2(I, "xc", "query point")
        gm = I.fresh("gamma")
        I.assume(gm >= 0)
        return [o, x, gm], {}, (o, P, items(x), gm)

    def check(self, I, ctx, out):
        o, P, x, gm = ctx
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return
        v = out[1]
        if not (isinstance(v, tuple) and len(v) == 2):
            raise Unsupported("form of the answer")
        idx_ok(I, o)
        y = [I.fresh("y0"), I.fresh("y1")]
        optim_post(I, P, x, gm, v[0], v[1], y, x)


def optim_post(I, P, x, gm, cut, new, y, xc, known=None, raws=()):
    g, b = cut_at(cut)
    if new is None:
        I.prove("an improving point is reported as such", NOT(P.good(x, gm)), assume=False)
        bar = gm
    else:
        if not is_num(new):
            raise Unsupported("value")
        I.prove("an improving answer only within the limit and at least as good", P.good(x, gm), assume=False)
        I.prove("the value reported is the profit", same(new, P.profit(x)), assume=False)
        bar = P.profit(x)
        I.assume(P.good(x, gm))
    valid(I, P, x, bar, g, b, y, xc, known, raws)


def valid(I, P, x, bar, g, b, y, xc, known=None, raws=()):
    if xc is not x:
        back = add(mul(g[0], sub(xc[0], x[0])), mul(g[1], sub(xc[1], x[1])))
        for raw in raws:
            f = same(b, add(raw, back))
            if not I.recording() or I.quick(f, 1.0, True):
                I.prove("offset moved to the queried centre", f, kind="lemma")
                b0 = I.fresh("b0")
                I.assume(same(b0, raw))
                b, xc = b0, x
                break
    I.assume(P.good(y, bar))
    P.lse(I, x, y, bar)
    # S = bar + cost(x), profit(y) >= bar gives log(bar + cost(y)) <= cobb(y)
    S = add(bar, P.cost(x))
    if not conc(bar) and not bar.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        # improving answer: S = exp(cobb(x))
        E = EX(P.cobb(x))
        I.prove("normaliser", cmp("==", S, E), kind="lemma")
        I.prove("its logarithm", cmp("==", LG(S), P.cobb(x)), kind="lemma")
        S = E
    I.prove("log of the other normaliser", cmp("<=", LG(add(bar, P.cost(y))), P.cobb(y)), kind="lemma")
    form = AND(*[cmp("==", add(g[i], P.a[i]), truediv(mul(P.v[i], EX(x[i])), S)) for i in range(2)])
    if (not I.recording() or I.quick(form, 1.0, True)):
        I.prove("gradient of log-sum-exp", form, kind="lemma")
    I.prove("the cut keeps every point at least as good", cmp("<=", lhs(g, b, y, xc), 0), assume=False, known=known)


class FeasTask(Task):
    qual = MOD + ":ProfitOracle.assess_feas"
    title = qual

    setup = OptimTask.setup

    def check(self, I, ctx, out):
        o, P, x, gm = ctx
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return
        idx_ok(I, o)
        if out[1] is None:
            I.prove("no cut only at a point within the limit and at least as good", P.good(x, gm), assume=False)
            return
        I.prove("a cut only at another point", NOT(P.good(x, gm)), assume=False)
        g, b = cut_at(out[1])
        valid(I, P, x, gm, g, b, [I.fresh("y0"), I.fresh("y1")], x)


class RobustTask(Task):
    qual = MOD + ":ProfitRbOracle.assess_optim"
    title = qual

    def setup(self, I):
        e = [I.fresh(f"e{k}") for k in range(1, 6)]
        I.assume(z3.And(*[x >= 0 for x in e]))
        up, lim = z3.Real("unit_price"), z3.Real("limit")
        I.assume(z3.And(up > e[2], lim > e[3]))
        o, up, sc, lim, a, v = make(I, "ProfitRbOracle", [tuple(e)])
        om = o.attrs.get("omega")
        if not (isinstance(om, Obj) and getattr(om.cls, "qual", "") == MOD + ":ProfitOracle"):
            raise Unsupported("inner oracle")
        anystate(I, om)
        if I.choose(2, "queried before") == 0:
            om.attrs["elasticities"] = vec2(I, "old_elasticities")
        declare(om, "elasticities")
        x = vec2(I, "xc", "query point")
        gm = I.fresh("gamma")
        I.assume(gm >= 0)
        pre = {k: (items(w) if isinstance(w, Arr) else list(w.items) if isinstance(w, ListObj) else None) for k, w in o.attrs.items()}
        return [o, x, gm], {}, (o, om, (up, sc, lim, a, v), e, items(x), gm, pre)

    def check(self, I, ctx, out):
        o, om, (up, sc, lim, a, v), e, x, gm, pre = ctx
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return
        r = out[1]
        if not (isinstance(r, tuple) and len(r) == 2):
            raise Unsupported("form of the answer")
        idx_ok(I, om)
        for k, w in pre.items():
            if w is None:
                continue
            c = o.attrs.get(k)
            c = items(c) if isinstance(c, Arr) else list(c.items) if isinstance(c, ListObj) else None
            I.prove(f"nominal {k} unchanged", AND(c is not None, *[same(p, q) for p, q in zip(c or [], w)]), assume=False)
        lpA, lk = LG(mul(sub(up, e[2]), sc)), LG(sub(lim, e[3]))
        vw = [add(v[0], e[4]), add(v[1], e[4])]
        corners = [Prob(lpA, lk, [add(a[0], mul(s, e[0])), add(a[1], mul(t, e[1]))], vw) for s in (1, -1) for t in (1, -1)]
        worst = Prob(lpA, lk, [ite(cmp(">", x[0], 0), sub(a[0], e[0]), add(a[0], e[0])), ite(cmp(">", x[1], 0), sub(a[1], e[1]), add(a[1], e[1]))], vw)
        # the sign pattern of the query point decides which corner is the worst
        k = (1 if I.branch(cmp(">", x[0], 0)) else -1, 1 if I.branch(cmp(">", x[1], 0)) else -1)
        W = Prob(lpA, lk, [sub(a[0], mul(k[0], e[0])), sub(a[1], mul(k[1], e[1]))], vw)
        # an arbitrary parameter vector in the box
        b = [I.fresh("box_a0"), I.fresh("box_a1")]
        bu, bl, bv = I.fresh("box_price"), I.fresh("box_limit"), [I.fresh("box_v0"), I.fresh("box_v1")]
        inbox = [bu >= up - e[2], bu <= up + e[2], bl >= lim - e[3], bl <= lim + e[3]]
        for i in range(2):
            inbox += [b[i] >= R(a[i]) - e[i], b[i] <= R(a[i]) + e[i], bv[i] >= R(v[i]) - e[4], bv[i] <= R(v[i]) + e[4]]
        B = Prob(LG(mul(bu, sc)), LG(bl), b, bv)
        npc = len(I.pc)
        for h in inbox:
            I.assume(h)
        for i in range(2):
            I.prove(f"box lemma {i}", z3.And((b[i] - R(W.a[i])) * R(x[i]) >= 0, (R(vw[i]) - bv[i]) * EX(x[i]) >= 0), kind="lemma")
        I.prove("box lemma price", z3.And(bu * sc >= (up - e[2]) * sc, R(B.logpA) >= R(lpA)), kind="lemma")
        I.prove("box lemma revenue", R(EX(B.cobb(x))) >= R(EX(W.cobb(x))), kind="lemma")
        I.prove("the worst corner minimises the profit over the box", cmp(">=", B.profit(x), W.profit(x)), kind="lemma")
        I.prove("the smallest limit is the strictest", cmp(">=", B.logk, W.logk), kind="lemma")
        I.pc = I.pc[:npc]
        y = [I.fresh("y0"), I.fresh("y1")]
        optim_post(I, W, x, gm, r[0], r[1], y, x)


class DiscreteTask(Task):
    qual = MOD + ":ProfitQOracle.assess_optim_q"
    title = qual

    def setup(self, I):
        o, up, sc, lim, a, v = make(I, "ProfitQOracle")
        om = o.attrs.get("omega")
        if not (isinstance(om, Obj) and getattr(om.cls, "qual", "") == MOD + ":ProfitOracle") or not isinstance(o.attrs.get("xd"), Arr):
            raise Unsupported("state representation changed")
        anystate(I, om)
        declare(o, "xd").attrs["xd"] = vec2(I, "xd")
        P = Prob(LG(mul(up, sc)), LG(lim), a, v)
        x = vec2(I, "xc", "query point")
        gm = I.fresh("gamma")
        I.assume(gm >= 0)
        retry = I.choose(2, "retry") == 0
        for t in items(x):
            r = ROUND(EX(t))
            I.assume(r >= 0)  # rounding a positive number
            I.assume(z3.Or(r == 0, r >= 1))
        return [o, x, gm, retry], {}, (o, P, items(x), gm, retry, items(o.attrs["xd"]), x)

    def check(self, I, ctx, out):
        o, P, x, gm, retry, xd0, xobj = ctx
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return
        r = out[1]
        if not (isinstance(r, tuple) and len(r) == 4):
            raise Unsupported("form of the answer")
        cut, xq, new, alt = r
        idx_ok(I, o.attrs["omega"])
        I.prove("alternatives are announced exactly on first attempts", Z(I.truth(alt)) == z3.BoolVal(not retry), assume=False)
        y = [I.fresh("y0"), I.fresh("y1")]
        q = items(xq)
        if not retry and not I.branch(P.good(x, gm)):
            I.prove("a relaxed-infeasible centre is returned with its own cut", AND(same(q[0], x[0]), same(q[1], x[1])), assume=False)
            I.prove("no value for a relaxed-infeasible centre", new is None, assume=False)
            g, b = cut_at(cut)
            valid(I, P, x, gm, g, b, y, x)
            return
        if retry:
            want = xd0
            I.prove("a retry re-evaluates the stored point", AND(same(q[0], want[0]), same(q[1], want[1])), assume=False)
        else:
            want = [LG(ite(cmp("==", ROUND(EX(t)), 0), 1, ROUND(EX(t)))) for t in x]
            I.prove("the evaluated point is the logarithm of the rounded inputs", AND(same(q[0], want[0]), same(q[1], want[1])), assume=False)
        xd = o.attrs.get("xd")
        s = items(xd)
        I.prove("the evaluated point is stored for a retry", AND(same(s[0], q[0]), same(s[1], q[1])), assume=False)
        I.assume(AND(same(q[0], want[0]), same(q[1], want[1])))
        # known defect: the offset is shifted by g.(xd - xc) instead of g.(xc - xd)
        g, b = cut_at(cut)
        shifted = add(mul(g[0], sub(want[0], x[0])), mul(g[1], sub(want[1], x[1])))
        if new is not None:
            raws = [0]
            kn = same(b, shifted)
        else:
            raw1 = sub(want[0], P.logk)
            raw2 = P.F(want, gm)
            raws = [raw1, raw2]
            kn = OR(same(b, add(raw1, shifted)), same(b, add(raw2, shifted)))
        gn = self.gradient_form(I, P, want, gm, g, new)
        optim_post(I, P, want, gm, cut, new, y, x, known=("offset shifted the wrong way", AND(kn, gn)), raws=raws)

    def gradient_form(self, I, P, xd, gm, g, new):
        bar = gm if new is None else P.profit(xd)
        S = add(bar, P.cost(xd))
        f = AND(*[cmp("==", mul(add(g[i], P.a[i]), S), mul(P.v[i], EX(xd[i]))) for i in range(2)])
        if new is not None:
            return f
        return OR(f, AND(same(g[0], 1), same(g[1], 0)))


def tasks(prop):
    if prop == "C16":
        return [OptimTask(prop), FeasTask(prop)]
    if prop == "C17":
        return [RobustTask(prop)]
    if prop == "C18":
        return [DiscreteTask(prop)]
