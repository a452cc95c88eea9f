"""Contracts of the cutting-plane loops (C07, C08, C09), the binary search (C10) and its adaptor (C11).

The oracle and the search space are arbitrary objects satisfying the interfaces of ell_typing; ghost state records the
history (last answer, pending cut, number of cuts, best value), every interface call is checked against it, and the
postcondition relates the result to it."""
from .base import *
from . import ell as ELL

MOD = "ellalgo.cutting_plane"
STAT = ("Success", "NoSoln", "NoEffect", "Unknown")


def vcell(I, name):
    c = VCell(I.fresh(name, V))
    c.serial = I.new_serial()
    return c


def options(I):
    ci = I.src.cls("ellalgo.ell_config:Options")
    if ci is None:
        raise Unsupported("Options not found")
    o = Obj(ci)
    o.serial = I.new_serial()
    m, t = I.fresh("max_iters", IZ), I.fresh("tolerance")
    I.assume(m >= 0)
    o.attrs.update(max_iters=m, tolerance=t)
    return o, m, t


class Space:
    """any search space: a centre and a squared width, changed by cuts only"""

    def __init__(self, I, on_cut):
        o = Obj(None, "space")
        o.serial = I.new_serial()
        o.attrs = {"!c": vcell(I, "centre"), "!t": I.fresh("tsq")}
        self.o, self.on_cut = o, on_cut
        o.model = {"xc": self.xc, "tsq": self.tsq,
                   "update_bias_cut": self.up("bias"), "update_central_cut": self.up("central"), "update_q": self.up("q")}

    def xc(self, I, o, a, k):
        return o.attrs["!c"]

    def tsq(self, I, o, a, k):
        return o.attrs["!t"]

    def up(self, how):
        def f(I, o, a, k):
            a = list(a) + list(k.values())
            if len(a) != 1:
                raise Unsupported("arguments of the update")
            st = self.on_cut(I, how, a[0])
            if I.choose(2, "centre moved in place") == 0:
                c = o.attrs["!c"]
                I.note_write(c, None)
                c.content = I.fresh("centre", V)
            else:
                I.setattr(o, "!c", vcell(I, "centre"))
            I.setattr(o, "!t", I.fresh("tsq"))
            self.after(I, st)
            return EnumMember("CutStatus", st, None)
        return f


def newcut(I):
    g = vcell(I, "grad")
    return (g, I.fresh("beta"))


def samecut(I, a, b):
    if a is b:
        return True
    if isinstance(a, (tuple, ListObj)):
        a = a if isinstance(a, tuple) else a.items
        if len(a) == 2 and isinstance(a[0], VCell) and is_num(a[1]):
            return z3.And(a[0].content == b[0].content, R(a[1]) == R(b[1]))
        return False
    raise Unsupported("form of the cut")


class LoopTask(Task):
    improving = False

    def common(self, I):
        self.opt, self.m, self.tol = options(I)
        sp = Space(I, self.on_cut)
        sp.after = self.after_cut
        self.sp = sp.o
        I.ghost.update(ok=True, pend=False, cuts=0, queries=0)
        I.bounds = {"cuts": self.m, "queries": self.m}
        I.pcut = None
        I.roots = {"space": sp.o}

    def query(self, I, x):
        g = I.ghost
        I.prove("no query after a stopping condition", g["ok"], kind="protocol")
        I.prove("the previous cut was applied before the next query", NOT(g["pend"]), kind="protocol")
        I.prove("at most max_iters iterations", cmp("<", g["cuts"], self.m), kind="protocol")
        if not isinstance(x, VCell):
            raise Unsupported("query point")
        I.prove("the oracle is asked at the current centre", x.content == self.sp.attrs["!c"].content, kind="protocol")
        I.gset("queries", add(g["queries"], 1))

    def applied(self, I, cut):
        g = I.ghost
        I.prove("a cut is applied only after the oracle returned it, once", g["pend"], kind="protocol")
        if I.pcut is None:
            raise Unsupported("cut carried around the loop")
        I.prove("the cut applied is the cut returned", samecut(I, cut, I.pcut), kind="protocol")
        I.gset("pend", False)
        I.gset("cuts", add(g["cuts"], 1))

    def stopped(self, I, what):
        g = I.ghost
        I.prove(f"{what}: the search stops only for a stopping reason", OR(NOT(g["ok"]), cmp("==", g["cuts"], self.m)), assume=False)
        I.prove(f"{what}: no cut is left over", NOT(g["pend"]), assume=False)

    def result(self, I, out, k):
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return None
        v = out[1]
        if not (isinstance(v, tuple) and len(v) == k):
            raise Unsupported("form of the result")
        return v

    def after_cut(self, I, st):
        ok = st == "Success"
        I.gset("ok", cmp(">=", self.sp.attrs["!t"], self.tol) if ok else False)


class FeasTask(LoopTask):
    qual = MOD + ":cutting_plane_feas"
    title = qual

    def setup(self, I):
        self.common(I)
        I.ghost.update(acc=False, at=I.fresh("accepted", V))

        def assess(I, o, a, k):
            x = (list(a) + list(k.values()))[0]
            self.query(I, x)
            if I.choose(2, "accepted") == 0:
                I.gset("acc", True)
                I.gset("at", x.content)
                I.gset("ok", False)
                return None
            I.pcut = newcut(I)
            I.gset("pend", True)
            return I.pcut

        om = Obj(None, "omega")
        om.serial = I.new_serial()
        om.model = {"assess_feas": assess}
        return [om, self.sp, self.opt], {}, None

    def on_cut(self, I, how, cut):
        I.prove("the cut is applied as a bias cut", how == "bias", kind="protocol")
        self.applied(I, cut)
        return STAT[I.choose(4, "status")]

    def check(self, I, ctx, out):
        v = self.result(I, out, 2)
        if v is None:
            return
        x, n = v
        g = I.ghost
        if not is_num(n):
            raise Unsupported("count")
        if x is None:
            I.prove("None only if no point was accepted", NOT(g["acc"]), assume=False)
            self.stopped(I, "None")
            I.prove("the count is the number of completed cuts", cmp("==", n, sub(g["cuts"], ite(g["ok"], 0, 1))), assume=False)
            return
        if not isinstance(x, VCell):
            raise Unsupported("point returned")
        I.prove("a point is returned only when the oracle accepted it on the last query", g["acc"], assume=False)
        I.prove("the point returned is the accepted one", x.content == g["at"], assume=False)
        I.prove("the count is the number of completed cuts", cmp("==", n, g["cuts"]), assume=False)


class OptimTask(LoopTask):
    qual = MOD + ":cutting_plane_optim"
    title = qual

    def setup(self, I):
        self.common(I)
        g0 = I.fresh("gamma")
        I.ghost.update(has=False, gam=g0, best=I.fresh("bestpoint", V), imp=False)

        def assess(I, o, a, k):
            a = list(a) + list(k.values())
            x, gm = a
            self.query(I, x)
            I.prove("the oracle is asked with the current best value", cmp("==", gm, I.ghost["gam"]), kind="protocol")
            I.pcut = newcut(I)
            I.gset("pend", True)
            if I.choose(2, "improved") == 0:
                g1 = I.fresh("gamma1")
                I.gset("has", True)
                I.gset("gam", g1)
                I.gset("best", x.content)
                I.gset("imp", True)
                return (I.pcut, g1)
            I.gset("imp", False)
            return (I.pcut, None)

        om = Obj(None, "omega")
        om.serial = I.new_serial()
        om.model = {"assess_optim": assess}
        return [om, self.sp, g0, self.opt], {}, None

    def on_cut(self, I, how, cut):
        if I.ghost["pend"] is True and isinstance(I.ghost["imp"], bool):
            want = "central" if I.ghost["imp"] else "bias"
            I.prove(f"an {'improving' if I.ghost['imp'] else 'ordinary'} query is followed by a {want} cut", how == want, kind="protocol")
        self.applied(I, cut)
        return STAT[I.choose(4, "status")]

    def check(self, I, ctx, out):
        v = self.result(I, out, 3)
        if v is None:
            return
        x, gm, n = v
        g = I.ghost
        self.stopped(I, "end")
        if not is_num(gm):
            raise Unsupported("value returned")
        I.prove("the value returned is the best one", cmp("==", gm, g["gam"]), assume=False)
        if x is None:
            I.prove("None only without an improvement", NOT(g["has"]), assume=False)
            return
        if not isinstance(x, VCell):
            raise Unsupported("point returned")
        I.prove("a point is returned only after an improvement", g["has"], assume=False)
        I.prove("the point returned is the one of the best value, unaltered", x.content == g["best"], assume=False)
        I.prove("the point returned is not the live centre", x is not self.sp.attrs["!c"], assume=False)


class OptimQTask(LoopTask):
    qual = MOD + ":cutting_plane_optim_q"
    title = qual

    def setup(self, I):
        self.common(I)
        g0 = I.fresh("gamma")
        I.ghost.update(has=False, gam=g0, best=I.fresh("bestpoint", V), retry=False, alt=False)

        def assess(I, o, a, k):
            a = list(a) + list(k.values())
            x, gm, retry = a
            self.query(I, x)
            I.prove("the oracle is asked with the current best value", cmp("==", gm, I.ghost["gam"]), kind="protocol")
            I.prove("the retry flag is right", Z(I.truth(retry)) == Z(I.ghost["retry"]), kind="protocol")
            I.pcut = newcut(I)
            I.gset("pend", True)
            xq = x if I.choose(2, "evaluated at the centre itself") == 0 else vcell(I, "xq")
            more = I.fresh("more_alt", z3.BoolSort())
            I.gset("alt", more)
            if I.choose(2, "improved") == 0:
                g1 = I.fresh("gamma1")
                I.gset("has", True)
                I.gset("gam", g1)
                I.gset("best", xq.content)
                return (I.pcut, xq, g1, more)
            return (I.pcut, xq, None, more)

        om = Obj(None, "omega")
        om.serial = I.new_serial()
        om.model = {"assess_optim_q": assess}
        return [om, self.sp, g0, self.opt], {}, None

    def on_cut(self, I, how, cut):
        I.prove("the cut is applied as a discrete cut", how == "q", kind="protocol")
        self.applied(I, cut)
        return STAT[I.choose(3, "status")]

    def after_cut(self, I, st):
        wide = cmp(">=", self.sp.attrs["!t"], self.tol)
        if st == "Success":
            I.gset("retry", False)
            I.gset("ok", wide)
        elif st == "NoSoln":
            I.gset("ok", False)
        else:
            I.gset("retry", OR(I.ghost["retry"], I.ghost["alt"]))
            I.gset("ok", AND(I.ghost["alt"], wide))

    def check(self, I, ctx, out):
        v = self.result(I, out, 3)
        if v is None:
            return
        x, gm, n = v
        g = I.ghost
        self.stopped(I, "end")
        if not is_num(gm):
            raise Unsupported("value returned")
        I.prove("the value returned is the best one", cmp("==", gm, g["gam"]), assume=False)
        if x is None:
            I.prove("None only without an improvement", NOT(g["has"]), assume=False)
            return
        if not isinstance(x, VCell):
            raise Unsupported("point returned")
        I.prove("a point is returned only after an improvement", g["has"], assume=False)
        I.prove("the point returned is the evaluation point of the best value, unaltered", x.content == g["best"], assume=False)
        I.prove("the point returned is not the live centre", x is not self.sp.attrs["!c"], assume=False)


class BsearchTask(Task):
    qual = MOD + ":bsearch"

    def __init__(self, prop, ints):
        super().__init__(prop)
        self.ints = ints
        self.mixed = ints is None  # lower end an integer, upper end a float
        self.title = self.qual + (" (integer and float)" if self.mixed else " (integers)" if ints else " (floats)")

    def setup(self, I):
        self.opt, self.m, self.tol = options(I)
        srt = IZ if self.ints else RZ
        lo, hi = I.fresh("lower", IZ if self.mixed else srt), I.fresh("upper", srt)
        I.assume(lo <= hi)
        I.ghost.update(lo=z3.ToReal(lo) if self.mixed else lo, hi=hi, nq=0)
        I.bounds = {"nq": self.m}
        I.assume(self.tol >= 0)

        def assess(I, o, a, k):
            gm = (list(a) + list(k.values()))[0]
            g = I.ghost
            if not is_num(gm):
                raise Unsupported("probe")
            I.prove("at most max_iters queries", cmp("<", g["nq"], self.m), kind="protocol")
            I.prove("the probe lies in the current bracket", AND(cmp("<=", g["lo"], gm), cmp("<=", gm, g["hi"])), kind="protocol")
            I.prove("no probe once the bracket is within tolerance", NOT(cmp("<", sub(g["hi"], g["lo"]), mul(2, self.tol))), kind="protocol")
            if self.ints:
                if not is_intlike(gm):
                    raise Unsupported("integer probe expected")
                d = sub(mul(2, gm), add(g["lo"], g["hi"]))
                I.prove("an integer probe is the middle up to rounding", AND(cmp("<=", d, 1), cmp(">=", d, -1)), kind="protocol")
            else:
                I.prove("the probe halves the bracket", cmp("==", mul(2, gm), add(g["lo"], g["hi"])), kind="protocol")
            I.gset("nq", add(g["nq"], 1))
            if I.choose(2, "accepted") == 0:
                I.gset("hi", gm)
                return True
            I.gset("lo", gm)
            return False

        om = Obj(None, "omega")
        om.serial = I.new_serial()
        om.model = {"assess_bs": assess}
        return [om, (lo, hi), self.opt], {}, (lo, hi)

    loops = ()

    def check(self, I, ctx, out):
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return
        v = out[1]
        if not (isinstance(v, tuple) and len(v) == 2 and is_num(v[0]) and is_num(v[1])):
            raise Unsupported("form of the result")
        g = I.ghost
        I.prove("the result is the upper end of the bracket", cmp("==", v[0], g["hi"]), assume=False)
        I.prove("the count is the number of queries", cmp("==", v[1], g["nq"]), assume=False)
        I.prove("the search ends within tolerance or after max_iters queries", OR(cmp("<", sub(g["hi"], g["lo"]), mul(2, self.tol)), cmp("==", g["nq"], self.m)), assume=False)


class FeasSolver(Contract):
    """cutting_plane_feas as seen by the adaptor: the space handed over is consumed"""
    qual = MOD + ":cutting_plane_feas"

    def call(self, I, env):
        om, sp, op = env.get("omega"), env.get("space"), env.get("options")
        c = I.adaptor
        c["calls"] += 1
        I.prove("the search runs with the adaptor's oracle", om is c["omega"], kind="protocol")
        I.prove("the oracle was set to the probed value before solving", AND(c["value"] is not None, cmp("==", c["value"], c["gamma"]) if c["value"] is not None else False), kind="protocol")
        I.prove("the search runs with the adaptor's options", op is c["options"], kind="protocol")
        if not isinstance(sp, Obj):
            raise Unsupported("space")
        I.prove("the search runs on a copy, not on the main space", sp is not c["main"], kind="protocol")
        for nm, f in equal_state(sp, c["pre"]):
            I.prove(f"the copy starts from the main space ({nm})", f, kind="protocol")
        # the solver may do anything to the space it was given
        for a, v in list(sp.attrs.items()):
            if isinstance(v, Arr):
                f = I.freshfn("solved!" + a, v.ndim)
                I.setall(v, lambda *j, f=f: f(*[Z(x) for x in j]))
            elif is_z(v) and not is_boollike(v) and not is_intlike(v):
                I.setattr(sp, a, I.fresh("solved!" + a))
        n = I.fresh("niter", IZ)
        if I.choose(2, "feasible") == 0:
            c["found"] = sp.attrs.get("_xc")
            if not isinstance(c["found"], Arr):
                raise Unsupported("centre")
            c["x"] = c["found"].snap()
            return (c["found"], n)
        return (None, n)


def state(o):
    return {a: (v.snap(), v.shape) if isinstance(v, Arr) else v for a, v in o.attrs.items()}


def equal_state(o, pre, but=()):
    out = []
    for a, v in pre.items():
        if a in but:
            continue
        w = o.attrs.get(a)
        if isinstance(v, tuple) and callable(v[0]):
            if not isinstance(w, Arr) or len(w.shape) != len(v[1]):
                out.append((a, False))
                continue
            k = len(v[1])
            s = w.snap()
            out.append((a, Q(k, lambda *i, v=v, s=s: z3.Implies(z3.And(*[z3.And(x >= 0, x < Z(d)) for x, d in zip(i, v[1])]), same(s(*i), v[0](*i))))))
        elif is_num(v):
            out.append((a, cmp("==", w, v) if is_num(w) else False))
        elif is_boollike(v):
            out.append((a, Z(w) == Z(v) if is_boollike(w) else False))
    return out


class AdaptorTask(Task):
    qual = MOD + ":BSearchAdaptor.assess_bs"
    contracts = (FeasSolver("C11"),)

    def __init__(self, prop, cls):
        super().__init__(prop)
        self.cls = cls
        self.title = f"{self.qual} on {cls.split(':')[1]}"

    def setup(self, I):
        n = I.fresh("n", IZ)
        I.assume(n >= 2)
        ci = I.src.cls(self.cls)
        if ci is None:
            raise Unsupported("search space not found")
        sp = I.instantiate(ci, [I.fresh("val"), I.symarr("x0", (n,))], {})
        for a, v in list(sp.attrs.items()):
            if isinstance(v, Arr):
                sp.attrs[a] = I.symarr("main!" + a, v.shape)
            elif is_num(v) and not is_intlike(v):
                sp.attrs[a] = I.fresh("main!" + a)
        declare(sp, *sp.attrs)
        op, _, _ = options(I)
        om = Obj(None, "omega")
        om.serial = I.new_serial()
        gm = I.fresh("gamma")

        def update(I, o, a, k):
            I.adaptor["value"] = (list(a) + list(k.values()))[0]
            return None

        om.model = {"update": update}
        ad = I.instantiate(I.src.cls(MOD + ":BSearchAdaptor"), [om, sp, op], {})
        I.adaptor = {"omega": om, "main": sp, "options": op, "gamma": gm, "value": None, "pre": state(sp), "calls": 0, "found": None}
        I.roots = {"main": sp}
        return [ad, gm], {}, (ad, sp)

    def check(self, I, ctx, out):
        ad, sp = ctx
        c = I.adaptor
        if out[0] == "raise":
            I.prove(f"no exception {out[1]}", False, assume=False)
            return
        if c["calls"] != 1:
            raise Unsupported("the adaptor does not call the solver exactly once")
        b = I.truth(out[1])
        I.prove("True exactly when a feasible point was found", Z(b) == z3.BoolVal(c["found"] is not None), assume=False)
        cur = I.getattr(ad, "space")
        I.prove("the main space stays the main space", cur is sp, assume=False)
        for nm, f in equal_state(sp, c["pre"], but=("_xc",) if c["found"] is not None else ()):
            I.prove(f"the main space keeps its {nm}", f, assume=False)
        if c["found"] is not None:
            x = I.callmethod(sp, "xc", [])
            y = I.getattr(ad, "x_best")
            for nm, a in (("centre", x), ("x_best", y)):
                if not isinstance(a, Arr):
                    raise Unsupported("centre")
                s = a.snap()
                I.prove(f"the {nm} of the main space is the point found", Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < Z(a.shape[0])), same(s(i), c["x"](i)))), assume=False)


def tasks(prop):
    if prop == "C07":
        return [FeasTask(prop)]
    if prop == "C08":
        return [OptimTask(prop)]
    if prop == "C09":
        return [OptimQTask(prop)]
    if prop == "C10":
        return [BsearchTask(prop, False), BsearchTask(prop, True), BsearchTask(prop, None)]
    if prop == "C11":
        return [AdaptorTask(prop, "ellalgo.ell:Ell"), AdaptorTask(prop, "ellalgo.ell_stable:EllStable"), FeasTask(prop)]
