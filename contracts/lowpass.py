"""Contracts of the low-pass oracle (C19)."""
from .base import *
from pyvc.interp import COS, PI

MOD = "ellalgo.oracles.lowpass_oracle"
CLS = MOD + ":LowpassOracle"


def rng(j, lo, hi):
    return z3.And(Z(cmp(">=", j, lo)), Z(cmp("<", j, hi)))


class InitTask(Task):
    """the sampled responses are r[0] + 2 sum r[k] cos(k w) on a uniform grid of 15n points over [0, pi]"""
    qual = CLS + ".__init__"
    title = qual

    def setup(self, I):
        n = I.fresh("n", IZ)
        I.assume(n >= 1)
        args = [I.fresh(s) for s in ("wpass", "wstop", "lp_sq", "up_sq", "sp_sq")]
        ci = I.src.cls(CLS)
        if ci is None:
            raise Unsupported("class not found")
        o = Obj(ci)
        o.serial = I.new_serial()
        return [o, n] + args, {}, (o, n, args)

    def check(self, I, ctx, out):
        o, n, (wp, ws, lp, up, sp) = ctx
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return
        S = o.attrs.get("spectrum")
        if not (isinstance(S, Arr) and S.ndim == 2):
            raise Unsupported("state representation changed")
        m = 15 * n
        I.prove("15n frequencies, n coefficients", AND(cmp("==", S.shape[0], m), cmp("==", S.shape[1], n)), assume=False)
        s = S.snap()
        w = lambda i: z3.ToReal(i) * (PI / z3.ToReal(m - 1))
        I.prove("constant term of the response", Q(1, lambda i: z3.Implies(rng(i, 0, m), same(s(i, 0), 1))), assume=False)
        i, k = I.fresh("i", IZ), I.fresh("k", IZ)
        I.assume(z3.And(i >= 0, i < m, k >= 1, k < n))
        arg = w(i) * z3.ToReal(k)
        e = R(s(i, k))
        # cos is uninterpreted: identify its argument, then compare
        st, cs = [z3.simplify(e)], []
        while st:
            t = st.pop()
            if z3.is_app(t) and t.decl().eq(COS):
                cs.append(t)
                continue
            st.extend(t.children())
        for c in cs[:2]:
            I.prove("the angle is k times the i-th grid point of [0, pi]", c.arg(0) == arg, kind="lemma")
            I.assume(c == COS(arg))
        I.prove("coefficient of r[k] is 2 cos(k w)", e == 2 * COS(arg), assume=False)
        g = lambda a: o.attrs.get(a)
        for a, want in (("nwpass", wp), ("nwstop", ws)):
            if not is_intlike(g(a)):
                raise Unsupported("state representation changed")
            I.prove(f"{a} is the number of grid points up to the band edge", cmp("==", g(a), z3.ToInt(want * z3.ToReal(m - 1)) + 1), assume=False)
        for a, want in (("lp_sq", lp), ("up_sq", up), ("sp_sq", sp)):
            I.prove(f"{a} as given", same(g(a), want) if is_num(g(a)) else False, assume=False)
        for a, lo, hi in (("idx1", 0, g("nwpass")), ("idx2", g("nwpass"), None), ("idx3", g("nwstop"), None)):
            v = g(a) if g(a) is not None else I.getattr(o, a)
            if not is_intlike(v):
                raise Unsupported("state representation changed")
            I.prove(f"{a} starts in its band", cmp("==", v, lo), assume=False)


class Base(Task):
    def state(self, I):
        ci = I.src.cls(CLS)
        if ci is None:
            raise Unsupported("class not found")
        n, m, p, s = (I.fresh(k, IZ) for k in ("n", "mdim", "nwpass", "nwstop"))
        I.assume(z3.And(n >= 1, 1 <= p, p <= s, s < m))
        lp, up, sp = (I.fresh(k) for k in ("lp_sq", "up_sq", "sp_sq"))
        ref = I.instantiate(ci, [48, Fraction(12, 100), Fraction(2, 10), lp, up, sp], {})
        need = {"spectrum", "nwpass", "nwstop", "lp_sq", "up_sq", "sp_sq", "idx1", "idx2", "idx3", "fmax", "kmax"}
        if set(ref.attrs) != need:
            raise Unsupported("state representation changed")
        o = Obj(ci)
        o.serial = I.new_serial()
        S = I.symarr("S", (m, n))
        i1, i2, i3 = (I.fresh(k, IZ) for k in ("idx1", "idx2", "idx3"))
        I.assume(z3.And(rng(i1, 0, p), i2 >= p, z3.Or(i2 < s, z3.And(p == s, i2 == p)), rng(i3, s, m)))
        km = I.fresh("kmax", IZ)
        o.attrs.update(spectrum=S, nwpass=p, nwstop=s, lp_sq=lp, up_sq=up, sp_sq=sp, idx1=i1, idx2=i2, idx3=i3,
                       fmax=Ext(I.fresh("old_ninf", z3.BoolSort()), I.fresh("old_fmax")), kmax=km)
        declare(o, "idx1", "idx2", "idx3", "fmax", "kmax", "sp_sq")
        x = I.symarr("x", (n,), owner="query point")
        return o, S, x, n, m, p, s, lp, up, sp

    def autos(self, I, o, resp, m, p, s, lp, up, sp):
        bands = (("pass", 0, p), ("trans", p, s), ("stop", s, m))

        def make(v):
            preds = {"pass": ("within the passband bounds", lambda j: z3.And(resp(j) >= lp, resp(j) <= up)),
                     "stop": ("within the stopband bounds", lambda j: z3.And(resp(j) >= 0, resp(j) <= sp)),
                     "trans": ("nonnegative", lambda j: resp(j) >= 0)}
            entry = _vals(v)
            out = []
            ints = [k for k, x in entry.items() if is_intlike(x)]
            exts = [k for k, x in entry.items() if kind_ext(x)]

            def topq(q, lo, hi, vis):
                def top(w, l):
                    c = _vals(w).get(q)
                    if c is None:
                        return False
                    isn, val = ext(c)
                    return Q(1, lambda j: z3.Implies(z3.And(rng(j, lo, hi), vis(j, w)), z3.And(z3.Not(isn), resp(j) <= val)))
                return top

            for q in exts:
                out.append((f"{q} is finite after the first iteration", lambda w, l, q=q: z3.Or(Z(w.it) <= 0, z3.Not(ext(_vals(w)[q])[0])) if q in _vals(w) else False))
            for b, lo, hi in bands:
                N = hi - lo
                nm, pr = preds[b]
                run = []
                for k in ints:
                    e0 = entry[k]

                    def pos(w, l, k=k, e0=e0, lo=lo, hi=hi, N=N):
                        c = _vals(w).get(k)
                        if not is_intlike(c):
                            return False
                        t = Z(e0) + Z(w.it)
                        return z3.Or(z3.And(Z(c) == z3.If(t < hi, t, t - N), Z(w.it) <= N, rng(c, lo, hi)), z3.And(N == 0, Z(c) == lo, Z(w.it) <= 0))
                    cid = f"{k} runs round the {b} band"
                    if cid in v.P["drop"] or not I.quick(pos(v, None), 1.0, True):
                        continue
                    run.append(k)
                    out.append((cid, pos))
                    vis = lambda j, w, e0=e0, N=N: z3.Or(z3.And(j > e0, j - e0 <= w.it), z3.And(j <= e0, j + N - e0 <= w.it))
                    out.append((f"{k}: visited samples of the {b} band are {nm}",
                                lambda w, l, vis=vis, lo=lo, hi=hi, pr=pr: Q(1, lambda j: z3.Implies(z3.And(rng(j, lo, hi), vis(j, w)), pr(j)))))
                    for q in exts:
                        out.append((f"{q} is at least every visited response ({k}, {b})", topq(q, lo, hi, vis)))
                if not run:
                    vis = lambda j, w, lo=lo: j < Z(lo) + Z(w.it)
                    out.append((f"first samples of the {b} band are {nm}",
                                lambda w, l, vis=vis, lo=lo, hi=hi, pr=pr: Q(1, lambda j: z3.Implies(z3.And(rng(j, lo, hi), vis(j, w)), pr(j)))))
                    for q in exts:
                        out.append((f"{q} is at least the first responses ({b})", topq(q, lo, hi, vis)))
                for q in exts:
                    for k in ints:
                        def arg(w, l, q=q, k=k, lo=lo, hi=hi):
                            c, i = _vals(w).get(q), _vals(w).get(k)
                            if c is None or not is_intlike(i):
                                return False
                            isn, val = ext(c)
                            return z3.Or(isn, z3.And(rng(i, lo, hi), resp(Z(i)) == val))
                        if b == "stop" and k not in run:
                            out.append((f"{q} is the response at {k} ({b})", arg))
            return out

        def _vals(w):
            d = {a: x for a, x in o.attrs.items() if is_intlike(x) or kind_ext(x)}
            d.update({a: x for a, x in w.fr.env.items() if is_intlike(x) or kind_ext(x)})
            mod = {k[1] for k in w.P["mod"]}
            return {a: x for a, x in d.items() if a in mod}
        return make

    def specs(self, resp, x0, m, p, s, lp, up, sp):
        """every sampled specification, as (name, band, predicate)"""
        return [("passband", 0, p, lambda j: z3.And(resp(j) >= lp, resp(j) <= up)),
                ("transition band", p, s, lambda j: resp(j) >= 0),
                ("stopband", s, m, lambda j: z3.And(resp(j) >= 0, resp(j) <= sp))]


def kind_ext(x):
    return isinstance(x, (Ext, Inf)) or (is_num(x) and not is_intlike(x))


def ext(x):
    if isinstance(x, Ext):
        return (x.isninf if is_z(x.isninf) else z3.BoolVal(x.isninf)), R(x.val)
    if isinstance(x, Inf):
        if x.sign > 0:
            raise Unsupported("+inf")
        return z3.BoolVal(True), z3.RealVal(0)
    return z3.BoolVal(False), R(x)


class FeasTask(Base):
    qual = CLS + ".assess_feas"
    title = qual
    optim = False

    def setup(self, I):
        o, S, x, n, m, p, s, lp, up, sp = self.state(I)
        S_, x_ = S.snap(), x.snap()
        I.S_, I.x_ = S_, x_
        resp = lambda j: R(I.sumover(0, n, lambda k: mul(S_(j, k), x_(k))))
        if self.optim:
            sp = I.fresh("gamma")
        I.extra_autos = self.autos(I, o, resp, m, p, s, lp, up, sp)
        return [o, x] + ([sp] if self.optim else []), {}, (o, S_, x_, n, m, p, s, lp, up, sp, resp)

    def check(self, I, ctx, out):
        o, S_, x_, n, m, p, s, lp, up, sp, resp = ctx
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return
        v = out[1]
        new = None
        if self.optim:
            if not (isinstance(v, tuple) and len(v) == 2):
                raise Unsupported("form of the answer")
            v, new = v
        # state of the round robin stays valid
        A = o.attrs
        I.prove("problem data is unchanged", AND(cmp("==", A["nwpass"], p), cmp("==", A["nwstop"], s), same(A["lp_sq"], lp), same(A["up_sq"], up), same(A["sp_sq"], sp)), assume=False)
        Sn = A["spectrum"]
        if not isinstance(Sn, Arr):
            raise Unsupported("spectrum")
        sn = Sn.snap()
        I.prove("the spectrum table is unchanged", Q(2, lambda i, k: z3.Implies(z3.And(rng(i, 0, m), rng(k, 0, n)), same(sn(i, k), S_(i, k)))), assume=False)
        I.prove("round robin positions stay in their bands", z3.And(rng(A["idx1"], 0, p), Z(A["idx2"]) >= p, z3.Or(Z(A["idx2"]) < s, z3.And(p == s, Z(A["idx2"]) == p)), rng(A["idx3"], s, m)), assume=False)
        sat = self.specs(resp, x_(0), m, p, s, lp, up, sp)
        r_ = I.symarr("r", (n,)).snap()
        rr = lambda j: R(I.sumover(0, n, lambda k: mul(S_(j, k), r_(k))))
        good = self.specs(rr, r_(0), m, p, s, lp, up, sp)
        improving = self.optim and new is not None
        if not self.optim and v is None or improving:
            for nm, lo, hi, pr in sat:
                I.prove(f"no cut only if every {nm} sample meets its bounds", Q(1, lambda j, lo=lo, hi=hi, pr=pr: z3.Implies(rng(j, lo, hi), pr(j))), assume=False)
            I.prove("no cut only if r[0] >= 0", cmp(">=", x_(0), 0), assume=False)
            if not improving:
                return
        if v is None:
            raise Unsupported("form of the answer")
        for nm, lo, hi, pr in good:
            I.assume(Q(1, lambda j, lo=lo, hi=hi, pr=pr: z3.Implies(rng(j, lo, hi), pr(j))))
        I.assume(cmp(">=", r_(0), 0))
        if improving:
            isn, val = ext(new)
            I.prove("a finite value is reported", z3.Not(isn), assume=False)
            I.prove("the reported value bounds every stopband response", Q(1, lambda j: z3.Implies(rng(j, s, m), resp(j) <= val)), assume=False)
            k = A["kmax"] if "kmax" in A and is_intlike(A["kmax"]) else None
            if k is None:
                raise Unsupported("state representation changed")
            I.prove("the reported value is attained in the stopband", z3.And(rng(k, s, m), resp(Z(k)) == val), assume=False)
            I.prove("the reported value does not exceed gamma", val <= sp, assume=False)
            I.assume(z3.And(rng(k, s, m), resp(Z(k)) == val))
            I.assume(Q(1, lambda j: z3.Implies(rng(j, s, m), rr(j) <= val)))
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Arr) and v[0].ndim == 1):
            raise Unsupported("form of the cut")
        g, b = v[0].snap(), v[1]
        I.same_dim(v[0].shape[0], n)
        # validity of both sides for every r that meets the specifications
        gr = R(I.sumover(0, n, lambda k: mul(g(k), sub(r_(k), x_(k)))))
        bs = b if isinstance(b, tuple) else (b,)
        bs = [ext(t)[1] for t in bs]
        I.prove("every r meeting the specifications satisfies the cut", gr + bs[0] <= 0, assume=False)
        if len(bs) > 1:
            I.prove("every r meeting the specifications satisfies the second side", gr + bs[1] >= 0, assume=False)
        if not improving:
            # the cut is an alarm only at a point that misses some specification
            for nm, lo, hi, pr in sat:
                I.assume(Q(1, lambda j, lo=lo, hi=hi, pr=pr: z3.Implies(rng(j, lo, hi), pr(j))))
            I.assume(cmp(">=", x_(0), 0))
            I.prove("a cut only at a point that misses some specification", False, assume=False)


class OptimTask(FeasTask):
    qual = CLS + ".assess_optim"
    title = qual
    optim = True


def tasks(prop):
    return [InitTask(prop), FeasTask(prop), OptimTask(prop)]
