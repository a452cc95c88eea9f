"""Frame conditions (C24): caller-owned data is unchanged at the end of every call, and nothing is shared between instances.

The functions are executed from the same arbitrary states as for the other properties; only the frame obligations count here."""
from .base import *
from . import ell, ldlt, lmi, lowpass, misc, profit
from pyvc.interp import ClassRef


def content_same(now, orig, nd):
    return Q(nd, lambda *j: same(now(*j), orig(*j)))


def owned_unchanged(I):
    n = 0
    for x, orig in list(I.owned):
        label = getattr(x, "shared", None)
        what = f"{label} (shared between instances and calls)" if label else f"caller-owned {x.owner}"
        if isinstance(x, Arr):
            if x._at is orig:
                g = True
            elif x.dtype == "bool":
                g = False
            else:
                g = content_same(x._at, orig, x.ndim)
        elif isinstance(x, ListObj):
            g = len(x.items) == len(orig) and all(a is b for a, b in zip(x.items, orig))
        else:
            g = set(x.attrs) == set(orig) and all(x.attrs[k] is orig[k] for k in orig)
        n += 1
        I.prove(f"frame: {what} is unchanged", g, kind="frame", assume=False)
    return n


def reachable(o):
    out, seen, todo = [], set(), [("self", o)]
    while todo:
        p, v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, Arr):
            out.append((p, v.root()))
        elif isinstance(v, Obj):
            todo += [(f"{p}.{k}", w) for k, w in v.attrs.items()]
        elif isinstance(v, (tuple, ListObj)):
            todo += [(f"{p}[{i}]", w) for i, w in enumerate(v if isinstance(v, tuple) else v.items)]
    return out


class FrameTask(Task):
    only = ("frame",)
    space = False
    guard = False
    retains = ()

    def __init__(self, prop, inner, space=False, again=False):
        super().__init__(prop)
        self.inner, self.space, self.again = inner, space, again
        self.qual, self.title = inner.qual, inner.title
        self.contracts, self.max_paths = inner.contracts, inner.max_paths

    def setup(self, I):
        I.frame_mode = True
        args, kwargs, ctx = self.inner.setup(I)
        I.loop_specs = [HavocAll() for _ in self.inner.loops] if self.inner.loops else []
        I.nodiv = True
        if hasattr(I, "extra_autos"):
            del I.extra_autos  # no invariant is needed for the frame
        return args, kwargs, (args, kwargs)

    def check(self, I, ctx, out):
        args, kwargs = ctx
        owned_unchanged(I)
        o = args[0] if args and isinstance(args[0], Obj) else None
        if o is None:
            return
        mine = {id(x): x for x, _ in I.owned if isinstance(x, Arr) and not getattr(x, "shared", None)}
        if self.space:
            kept = [(p, x) for p, x in reachable(o) if id(x) in mine]
            I.prove("frame: the search space keeps no array of its caller", not kept, kind="frame", assume=False)
            return
        asked = {id(a.root()) for a in args[1:] if isinstance(a, Arr)}
        if self.again and out[0] == "ret" and any(id(x) in asked for _, x in reachable(o)):
            # the query array is still referenced: another query must not write it
            new = [I.symarr(f"again{i}", a.shape, owner=a.owner) if isinstance(a, Arr) else a for i, a in enumerate(args[1:])]
            try:
                I.inline(Func(I.src.func(self.qual)), [o] + new, kwargs)
            except PyRaise:
                pass
            owned_unchanged(I)


class HavocAll:
    shared = True

    def inv(self, view):
        return []


class SetXc(Task):
    def __init__(self, prop, cls):
        super().__init__(prop)
        self.cls = cls
        self.qual = self.title = cls + ".set_xc"

    def setup(self, I):
        n = I.fresh("n", IZ)
        I.assume(n >= 2)
        o = ell.make_space(I, self.cls, n)
        return [o, I.symarr("newc", (n,), owner="centre given to set_xc")], {}, None


class ProfitInit(Task):
    """every constructor"""

    def __init__(self, prop, cls):
        super().__init__(prop)
        self.cls = cls
        self.qual = self.title = f"{profit.MOD}:{cls}.__init__"

    def setup(self, I):
        up, sc, lim = I.fresh("unit_price"), I.fresh("scale"), I.fresh("limit")
        a, v = profit.vec2(I, "elasticities", "elasticities"), profit.vec2(I, "price_out", "price_out")
        e = [I.fresh(f"e{k}") for k in range(1, 6)]
        I.assume(z3.And(sc > 0, up > 0, lim > 0, e[2] >= 0, e[3] >= 0, up > e[2], lim > e[3]))
        o = Obj(I.src.cls(f"{profit.MOD}:{self.cls}"))
        o.serial = I.new_serial()
        return [o, (up, sc, lim), a, v] + ([tuple(e)] if self.cls == "ProfitRbOracle" else []), {}, None


def tasks(prop):
    out = []
    for c in (ell.ELL, ell.STB):
        out.append(FrameTask(prop, ell.InitTask("C03", c), space=True))
        out.append(FrameTask(prop, SetXc(prop, c), space=True))
        out += [FrameTask(prop, ell.UpdateTask("C04", c, m, k), space=True) for m, k in ell.METHODS]
    out.append(FrameTask(prop, misc.CGTask("C20")))
    out.append(FrameTask(prop, misc.InvSpecTask("C21")))
    out.append(FrameTask(prop, misc.SpecTask("C22")))
    for c in ("ProfitOracle", "ProfitRbOracle", "ProfitQOracle"):
        out.append(FrameTask(prop, ProfitInit(prop, c)))
    out += [FrameTask(prop, t, again=True) for t in (profit.OptimTask("C16"), profit.FeasTask("C16"), profit.RobustTask("C17"), profit.DiscreteTask("C18"))]
    out += [FrameTask(prop, t, again=True) for t in lmi.tasks("C15")[:3]]
    out += [FrameTask(prop, t) for t in (ldlt.FactorizeTask("C12"), ldlt.SymQuadTask("C13"))]
    out += [FrameTask(prop, t, again=True) for t in (lowpass.FeasTask("C19"), lowpass.OptimTask("C19"))]
    return out
