"""Contracts of the LMI oracles (C15)."""
from .base import *
from . import ldlt


class LmiTask(Task):
    contracts = (ldlt.Factor("C15"), ldlt.Factorize("C15"), ldlt.Witness("C15"), ldlt.SymQuad("C15"), ldlt.FactorSemi("C15"), ldlt.IsSpd("C15"))

    def __init__(self, prop, cls, zero):
        super().__init__(prop)
        self.cls, self.zero = cls, zero
        self.qual = cls + ".assess_feas"
        self.title = self.qual

    def setup(self, I):
        n, m = I.fresh("n", IZ), I.fresh("m", IZ)
        I.assume(z3.And(n >= 1, m >= 1))
        F = I.freshfn("F", 3)
        cache = {}

        def at(k):
            key = Z(k).sexpr()
            if key not in cache:
                cache[key] = Arr((n, n), lambda i, j, k=k: F(Z(k), Z(i), Z(j)), "matrix F of the oracle", "real")
                cache[key].serial = 0
                I.owned.append((cache[key], cache[key]._at))
            return cache[key]

        mats = SymSeq(m, at)
        B = I.symarr("B", (n, n), owner="matrix B of the oracle")
        ci = I.src.cls(self.cls)
        if ci is None:
            raise Unsupported("class not found")
        o = I.instantiate(ci, [mats] if self.zero else [mats, B], {})
        x = I.symarr("x", (m,), owner="query point")
        mgr = [v for v in o.attrs.values() if isinstance(v, Obj) and getattr(v.cls, "qual", "") == ldlt.MGR]
        if len(mgr) != 1:
            raise Unsupported("manager")
        declare(mgr[0], "_storage", "wit", "pos")
        if I.choose(2, "reused") == 0:
            # an earlier query left an arbitrary state
            mgr[0].attrs["wit"] = I.symarr("oldwit", (n,))
            mgr[0].attrs["_storage"] = I.symarr("oldstorage", (n, n))
            mgr[0].attrs["pos"] = (I.fresh("old0", IZ), I.fresh("old1", IZ))
        return [o, x], {}, (o, n, m, F, B.snap(), x.snap(), mgr[0])

    def check(self, I, ctx, out):
        o, n, m, F, B, x, mgr = ctx
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return
        if getattr(mgr, "ghost_calls", 0) < 1:
            raise Unsupported("no factorisation by the manager")
        A = mgr.ghost_A
        spec = lambda i, j: I.sumover(0, m, lambda k: mul(F(Z(k), Z(i), Z(j)), x(k)))
        mat = spec if self.zero else (lambda i, j: sub(B(i, j), spec(i, j)))
        I.prove("the matrix factorised is the matrix of the inequality at the query point", Q(2, lambda i, j: z3.Implies(
            z3.And(j >= 0, j <= i, i < n), same(A(i, j), mat(i, j)))), assume=False)
        I.prove("the manager has the size of the matrix", cmp("==", ldlt.ghost_n(mgr), n), assume=False)
        v = out[1]
        I.prove("no cut exactly when the matrix is positive definite", (v is None) == (mgr.ghost_state == "spd"), assume=False)
        if v is None:
            return
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Arr) and is_num(v[1])):
            raise Unsupported("form of the cut")
        g, ep = v
        if mgr.ghost_state != "witness":
            raise Unsupported("cut without a witness")
        I.prove("0 <= ep <= -v^T A v", AND(cmp(">=", ep, 0), cmp("<=", ep, mgr.ghost_ep)), assume=False)
        I.prove("one gradient entry per matrix", cmp("==", g.shape[0], m))
        s, p = mgr.attrs["pos"]
        W, gs = mgr.ghost_W, g.snap()
        I.prove("gradient entries are the quadratic forms of the witness", Q(1, lambda k: z3.Implies(z3.And(k >= 0, k < m), same(
            gs(k), mul(-1 if self.zero else 1, ldlt.quad(I, s, p, lambda i: W(Z(i)), lambda i, j: F(Z(k), Z(i), Z(j))))))), assume=False)


def tasks(prop):
    base = "ellalgo.oracles."
    return [LmiTask(prop, base + "lmi_oracle:LMIOracle", False), LmiTask(prop, base + "lmi_old_oracle:LMIOldOracle", False),
            LmiTask(prop, base + "lmi0_oracle:LMI0Oracle", True)] + [
        ldlt.FactorTask("C13", False), ldlt.FactorizeTask("C12"), ldlt.WitnessTask("C13"), ldlt.SymQuadTask("C13")]
