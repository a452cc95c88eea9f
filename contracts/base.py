"""Contract and task plumbing."""
import ast
import os
import sys
import time
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import z3

from pyvc.interp import EXP, LOG, Interp, Obl, PathEnd, PyRaise, Q
from pyvc.loops import _consts
from pyvc.solve import Discharger, Prep, to_smt
from pyvc.source import Source
from pyvc.values import *
from pyvc.sums import IZ, RZ

SRC = [None]


def source():
    if SRC[0] is None:
        SRC[0] = Source()
    return SRC[0]


class Contract:
    """Sidecar contract of one function: call() checks the precondition, assumes the postcondition."""
    qual = None

    def __init__(self, prop):
        self.prop = prop

    def call(self, I, env):
        return NotImplemented

    def construct(self, I, o, args, kwargs):
        return None


def declare(o, *names):
    """the attributes of o that the contract treats as arbitrary, i.e. as left behind by any earlier history"""
    o.declared = getattr(o, "declared", frozenset()) | set(names)
    return o


def written_outside_init(ci):
    """attributes of self that methods other than __init__ write: assignments, item assignments, mutating calls"""
    out = set()
    own = lambda x: isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"
    for nm, m in ci.methods.items():
        if nm == "__init__":
            continue
        for x in ast.walk(m.node):
            if own(x) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.attr)
            ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.For)) else []
            for t in ts:
                while isinstance(t, ast.Subscript):
                    t = t.value
                if own(t):
                    out.add(t.attr)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and own(x.func.value) and x.func.attr in MUTATORS:
                out.add(x.func.value.attr)
    return out


MUTATORS = {"append", "extend", "insert", "pop", "popleft", "appendleft", "clear", "update", "setdefault", "add", "remove", "discard",
            "fill", "sort", "put", "resize", "itemset", "popitem", "reverse"}


def _sig(v, keep):
    keep.append(v)
    if isinstance(v, Arr):
        r = v.root()
        keep += [r, r._at]
        return ("arr", id(r), id(r._at))
    if isinstance(v, ListObj):
        return ("list", id(v), tuple(_sig(x, keep) for x in v.items))
    if isinstance(v, tuple):
        return tuple(_sig(x, keep) for x in v)
    if is_z(v):
        return ("z", v.get_id())
    if isinstance(v, (bool, int, Fraction, str, type(None))):
        return ("c", v)
    if isinstance(v, Ext):
        return ("ext", _sig(v.isninf, keep), _sig(v.val, keep))
    if isinstance(v, (Func, Bound)):
        return "fn"
    return ("id", id(v))


class StateGuard:
    """The contracts quantify over every history by making the mutable state arbitrary; a location that is written but was
    not made arbitrary would hide a dependence on earlier calls, so such code is not within reach."""

    def __init__(self, I, roots):
        self.I, self.keep, self.before = I, [], {}
        todo, seen = list(roots), set()
        while todo:
            v = todo.pop()
            if isinstance(v, (tuple, ListObj)):
                todo += list(v if isinstance(v, tuple) else v.items)
            if not isinstance(v, Obj) or id(v) in seen:
                continue
            seen.add(id(v))
            todo += list(v.attrs.values())
            if v.model is None and v.cls is not None and hasattr(v.cls, "methods"):
                self.before[id(v)] = (v, {k: _sig(x, self.keep) for k, x in v.attrs.items()})
                d = getattr(v, "declared", frozenset())
                for c in I.mro(v.cls):
                    for a in sorted(written_outside_init(c) - d):
                        if not isinstance(v.attrs.get(a), Obj):
                            raise Unsupported(f"unknown mutable state {a} of {v.cls.name}")

    def check(self):
        for v, old in self.before.values():
            d = getattr(v, "declared", frozenset())
            for k, x in v.attrs.items():
                if k not in d and (k not in old or _sig(x, self.keep) != old[k]):
                    raise Unsupported(f"unknown mutable state {k} of {v.cls.name}")
        for x, was in self.I.owned:
            if getattr(x, "shared", None):
                now = x._at if isinstance(x, Arr) else list(x.items) if isinstance(x, ListObj) else dict(x.attrs)
                if (now is not was) if isinstance(x, Arr) else (_sig(tuple(now) if isinstance(now, list) else tuple(now.values()), self.keep) !=
                                                               _sig(tuple(was) if isinstance(was, list) else tuple(was.values()), self.keep)):
                    raise Unsupported(f"{x.shared} is written")


class Task:
    """One function verified against its contract.

    setup(I) builds an arbitrary state satisfying the precondition and returns (args, kwargs, ctx);
    check(I, ctx, outcome) states the postcondition; outcome is ('ret', v) or ('raise', name)."""
    qual = None
    title = ""
    contracts = ()
    loops = ()
    max_paths = 3000
    guard = True
    only = None  # kinds of obligations this task is about

    def __init__(self, prop):
        self.prop = prop

    def setup(self, I):
        raise NotImplementedError

    def check(self, I, ctx, outcome):
        raise NotImplementedError

    def run_one(self, I):
        I.loop_specs = [l for l in self.loops]
        args, kwargs, ctx = self.setup(I)
        info = I.src.func(self.qual)
        if info is None:
            raise Unsupported(f"{self.qual} not found")
        if not I.covers.get("pre"):
            r = I.qs.check()
            I.covers["pre"] = str(r)
        guard = StateGuard(I, list(args) + list(kwargs.values())) if self.guard and info.name != "__init__" else None
        try:
            v = I.inline(Func(info), args, kwargs)
            out = ("ret", v)
        except PyRaise as ex:
            out = ("raise", ex.name)
        if guard is not None:
            guard.check()
        I.where = self.qual
        if I.recording():
            k = out[0]
            if I.covers.get(k) != "sat":
                I.covers[k] = str(I.qs.check())
            I.nreturns = getattr(I, "nreturns", 0) + 1
        self.check(I, ctx, out)


def mathfacts(o):
    """instances of elementary facts about exp and log for the terms of an obligation"""
    ex, lg, seen = {}, {}, set()
    st = [h for h in o.hyps] + [f.body for f in o.foralls] + ([o.goal] if not isinstance(o.goal, bool) else [])
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(EXP):
                ex[x.get_id()] = x
            elif x.decl().eq(LOG):
                lg[x.get_id()] = x
            st.extend(x.arg(i) for i in range(x.num_args()))
    if not ex and not lg:
        return []
    bound = {v.get_id() for f in o.foralls for v in f.vars}
    ok = lambda e: not any(c.get_id() in bound for c in _consts(e))
    ex, lg = [e for e in ex.values() if ok(e)][:24], [e for e in lg.values() if ok(e)][:16]
    out = [e > 0 for e in ex]
    for i, a in enumerate(ex):
        for b in ex[i + 1:]:
            out.append((a.arg(0) <= b.arg(0)) == (a <= b))
    for l in lg:
        s = l.arg(0)
        for e in ex:
            t = e.arg(0)
            out.append(z3.Implies(s > 0, (l <= t) == (s <= e)))
            out.append(z3.Implies(s > 0, (l >= t) == (s >= e)))
    for i, a in enumerate(lg):
        for b in lg[i + 1:]:
            out.append(z3.Implies(z3.And(a.arg(0) > 0, b.arg(0) > 0), (a.arg(0) <= b.arg(0)) == (a <= b)))
    return out


class Result:
    def __init__(self, task):
        self.task = task
        self.status = "proved"  # proved / failed / unsupported
        self.obls, self.failed = [], []
        self.why = ""
        self.by = {}
        self.solver_s = 0.0
        self.skipped = 0
        self.n = 0
        self.inlined, self.modular = [], []


def verify(task, workers=8, budget=25.0, deadline=None, stop_after=4):
    res = Result(task)
    t0 = time.time()
    I = Interp(source(), {c.qual: c for c in task.contracts}, max_paths=task.max_paths)
    I.target = task.qual
    res.I = I
    try:
        I.explore(task.run_one)
    except Unsupported as ex:
        res.status, res.why = "unsupported", f"{ex} (at {I.where})"
        return res
    except z3.Z3Exception as ex:
        res.status, res.why = "unsupported", f"{ex} (at {I.where})"
        return res
    except RecursionError:
        res.status, res.why = "unsupported", "recursion limit"
        return res
    res.inlined, res.modular = sorted(I.inlined), sorted(I.modular)
    res.gen_s = time.time() - t0
    if task.only:
        I.obls = [o for o in I.obls if o.kind in task.only]
    for o in I.obls:
        o.hyps = o.hyps + mathfacts(o)
    # remove duplicates, discharge trivial ones by evaluation
    todo, seen = [], set()
    for o in I.obls:
        g = o.goal
        if isinstance(g, bool):
            if g:
                res.n += 1
                res.by["evaluated"] = res.by.get("evaluated", 0) + 1
                continue
            g = z3.BoolVal(False)
        elif z3.is_true(z3.simplify(g)):
            res.n += 1
            res.by["evaluated"] = res.by.get("evaluated", 0) + 1
            continue
        o.goal = g
        k = (o.name, g.sexpr(), tuple(h.get_id() for h in o.hyps), len(o.foralls))
        if k in seen:
            continue
        seen.add(k)
        todo.append(o)
    res.n += len(todo)
    # a known finding is recognised by its exact characterisation; whatever does not fit it is an ordinary obligation
    kn = [o for o in todo if o.known is not None]
    if kn:
        ra = Discharger(I.sums, workers=workers, budget=min(budget, 6.0), deadline=deadline, stop_after=10**6).run(kn)
        okk = {id(o) for i, o in enumerate(kn) if i in ra and ra[i][0] == "proved"}
        res.by["z3"] = res.by.get("z3", 0) + len(okk)
        todo = [o for o in todo if id(o) not in okk]
        kn = [o for o in kn if id(o) not in okk]
        alt = []
        for o in kn:
            g = o.known[1]
            alt.append(Obl(o.name, z3.BoolVal(g) if isinstance(g, bool) else g, o.hyps, o.foralls, o.where, o.kind, o.rounds))
        ro = Discharger(I.sums, workers=workers, budget=min(budget, 6.0), deadline=deadline, stop_after=10**6).run(alt)
        hit = {id(o) for i, o in enumerate(kn) if i in ro and ro[i][0] == "proved"}
        if hit:
            I.known_hits = [o.known[0] for o in kn if id(o) in hit]
            res.by["matches known finding"] = len(hit)
            todo = [o for o in todo if id(o) not in hit]
    d = Discharger(I.sums, workers=workers, budget=budget, deadline=deadline, stop_after=stop_after)
    out = d.run(todo)
    if os.getloadavg()[0] > 1.6 * (os.cpu_count() or 8):  # a busy machine: time limits are not verdicts, ask again with more time
        again = [i for i in out if out[i][0] == "unknown"]
        d2 = Discharger(I.sums, workers=4, budget=2 * budget, deadline=deadline, stop_after=2, slow=4)
        for k, r in d2.run([todo[i] for i in again]).items():
            out[again[k]] = r
    for i, o in enumerate(todo):
        if i not in out:
            res.skipped += 1
            continue
        verdict, backend, dt, model = out[i]
        res.solver_s += dt
        if verdict == "proved":
            res.by[backend] = res.by.get(backend, 0) + 1
        else:
            o.verdict, o.model = verdict, model
            res.failed.append(o)
    res.total_s = time.time() - t0
    if res.failed:
        res.status = "failed"
    elif res.skipped:
        res.status, res.why = "timeout", f"{res.skipped} obligations not attempted before the deadline"
    elif res.n == 0:
        res.status, res.why = "unsupported", "no obligations generated (vacuous)"
    elif I.covers.get("pre") != "sat" and I.covers.get("pre") != "unknown":
        res.status, res.why = "unsupported", "precondition is unsatisfiable (vacuous)"
    elif not getattr(I, "nreturns", 0):
        res.status, res.why = "unsupported", "no path reaches the end (vacuous)"
    return res


def same(a, b):
    """numeric equality goal"""
    return cmp("==", a, b)


def prove_each(I, name, pairs):
    for n, f in pairs:
        I.prove(f"{name}: {n}", f, assume=False)


def is_triple(v):
    return isinstance(v, tuple) and len(v) == 3 and all(is_num(x) for x in v)
