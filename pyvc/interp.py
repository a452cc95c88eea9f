"""Symbolic execution of Python ASTs of /repo/src with contracts, loop invariants and automatic loop summaries.

Direct-style execution; a path is re-executed from the start for every alternative of a decision (decision list).
Obligations are recorded with the hypotheses of their path and discharged afterwards (solve.py).
"""
import ast
from fractions import Fraction

import z3

from .solve import Forall, Prep, solve_one, to_smt
from .source import Source
from .sums import IZ, RZ, Sums, children, contains, int_consts
from .values import *
from . import values as VV


def is_named(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED


def isslice(x):
    return isinstance(x, tuple) and len(x) == 4 and isinstance(x[0], str) and x[0] == "slice"


class PathEnd(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, name, val=None):
        self.name, self.val = name, val


class Restart(Exception):
    pass


class Poison:
    """value of a local that may be stale at this point"""


POISON = Poison()


class Q:
    """universally quantified claim over n integers: fn(*vars) -> formula"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn


class Obl:
    known = None  # (key of a known finding, goal that characterises it)

    def __init__(self, name, goal, hyps, foralls, where, kind, rounds=3):
        self.name, self.goal, self.hyps, self.foralls = name, goal, hyps, foralls
        self.where, self.kind, self.rounds = where, kind, rounds


class Frame:
    def __init__(self, info, env, closure=None):
        self.info, self.env, self.closure = info, env, closure


EXCS = {"ValueError", "AssertionError", "RuntimeError", "TypeError", "ZeroDivisionError", "IndexError", "KeyError",
        "Exception", "ArithmeticError", "NotImplementedError", "StopIteration", "OverflowError"}
EXC_PARENTS = {"ZeroDivisionError": ("ArithmeticError", "Exception"), "IndexError": ("LookupError", "Exception"),
               "KeyError": ("LookupError", "Exception"), "OverflowError": ("ArithmeticError", "Exception"),
               "NotImplementedError": ("RuntimeError", "Exception")}


class ExcClass:
    def __init__(self, name):
        self.name = name


class ExcVal:
    def __init__(self, name):
        self.name = name


class GhostObj:
    """ghost state: named values, may be havoced by loops"""

    def __init__(self):
        self.g = {}


class LoopRec:
    """one activation of a symbolic loop that is being verified by invariant or being summarised"""

    def __init__(self, key, frame, serial):
        self.key, self.frame, self.serial = key, frame, serial
        self.paths = {}
        self.prelocals = set()
        self.known = None
        self.mode = "inv"
        self.writes = []



# dictionaries with concrete keys are objects whose attributes are the items, so that writes are tracked in loops and frames

def dict_key(k):
    if isinstance(k, (str, bool, int, Fraction)) or k is None:
        return k
    if isinstance(k, EnumMember):
        return ("enum", str(k.cls), k.name)
    raise Unsupported("dict key")


def dict_get(I, o, a, k):
    key = dict_key(a[0])
    if key in o.attrs:
        return o.attrs[key]
    I.raise_("KeyError")


def dict_getd(I, o, a, k):
    key = dict_key(a[0])
    return o.attrs[key] if key in o.attrs else (a[1] if len(a) > 1 else None)


DICT_MODEL = {"__getitem__": dict_get, "get": dict_getd}


class Interp:
    def __init__(self, source=None, contracts=None, max_paths=4000, budget=None):
        self.src = source or Source()
        self.contracts = contracts or {}
        self.obls = []
        self.persist = {}  # survives restarts: loop knowledge
        self.max_paths = max_paths
        self.inlined, self.modular = set(), set()
        self.target = None
        self.notes = []

    # ------------------------------------------------------------------ exploration
    def explore(self, fn):
        """fn(self) runs one path from the start"""
        for attempt in range(80):
            self.obls = []
            self.covers = {}
            self.enum_cache = {}
            self.unprobed = False
            work = [[]]
            n = 0
            try:
                while work:
                    self.prefix = work.pop()
                    self._reset()
                    n += 1
                    if n > self.max_paths:
                        raise Unsupported("too many paths")
                    try:
                        fn(self)
                    except PathEnd:
                        pass
                    work.extend(self.alts)
                self.npaths = n
                if self.unprobed:
                    for p in self.persist.values():
                        p["probed"] = True
                    continue
                return
            except Restart:
                continue
        raise Unsupported("loop analysis does not converge")

    def _reset(self):
        self.taken, self.alts = [], []
        self.pc, self.foralls = [], []
        self.cnt, self.serial = {}, 0
        self.sums = Sums() if not hasattr(self, "sums") else self.sums
        self.sums.depth = 0
        self.li = z3.Solver()
        self.li.set("timeout", 400)
        self.qs = z3.Solver()
        self.qs.set("timeout", 300)
        self.dcache = [{}]
        self.ghost = {}
        self.owned = []
        self.loops = []
        self.frames = []
        self.depth = 0
        self.quiet = 0
        self.where = ""
        self.sums.scope = self._scope
        self.sums.namer = self._named_square
        self.sums.unscope = self._unscope
        VV.DECIDE[0] = self._decide
        self.modconsts = {}
        self.nosplit = 0

    def _scope(self, lo, b, hi):
        self.li.push()
        self.li.add(lo <= b, b < hi)
        self.dcache.append({})

    def _unscope(self):
        self.li.pop()
        self.dcache.pop()

    def fresh(self, base, sort=RZ):
        k = self.cnt.get(base, 0)
        self.cnt[base] = k + 1
        return z3.Const(f"{base}!{k}" if k else base, sort)

    def freshfn(self, base, arity, sort=RZ):
        k = self.cnt.get(base, 0)
        self.cnt[base] = k + 1
        return z3.Function(f"{base}!{k}" if k else base, *([IZ] * arity + [sort]))

    def new_serial(self):
        self.serial += 1
        return self.serial

    # ------------------------------------------------------------------ assumptions and decisions
    def _intonly(self, f):
        st = [f]
        while st:
            x = st.pop()
            if x.sort() == RZ:
                return False
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and x.sort() == RZ:
                return False
            if not z3.is_app(x):
                return False
            st.extend(children(x))
        return True

    def assume(self, f):
        if isinstance(f, Q):
            vs = [self.fresh("q!v", IZ) for _ in range(f.n)]
            for v in vs:
                pass
            b = f.fn(*vs)
            if b is True:
                return
            if b is False:
                raise PathEnd
            self.foralls.append(Forall(vs, b))
            return
        if isinstance(f, Forall):
            self.foralls.append(f)
            return
        if isinstance(f, bool):
            if not f:
                raise PathEnd
            return
        self.pc.append(f)
        if self._intonly(f):
            self.li.add(f)
            self.dcache[-1] = {}
        self.qs.add(f)

    def _decide(self, c):
        if isinstance(c, bool):
            return c
        d = self.dcache[-1]
        k = c.get_id()
        if k in d:
            return d[k][0]
        cs = z3.simplify(c)
        r = None
        if z3.is_true(cs):
            r = True
        elif z3.is_false(cs):
            r = False
        elif self._intonly(c):
            if self.li.check(z3.Not(c)) == z3.unsat:
                r = True
            elif self.li.check(c) == z3.unsat:
                r = False
        d[k] = (r, c)
        return r

    def branch(self, c, label=""):
        """decide a condition, forking if necessary"""
        if isinstance(c, bool):
            return c
        r = self._decide(c)
        if r is not None:
            return r
        if self.nosplit:
            raise NoSummary("branch inside a summarised body")
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t = self.qs.check(c) != z3.unsat
            f = self.qs.check(z3.Not(c)) != z3.unsat
            if not t and not f:
                raise PathEnd
            if t and f:
                self.alts.append(self.taken + [False])
                v = True
            else:
                v = t
        self.taken.append(v)
        self.assume(c if v else z3.Not(c))
        return v

    def choose(self, n, label=""):
        if n == 1:
            return 0
        if self.nosplit:
            raise NoSummary("choice inside a summarised body")
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            for k in range(n - 1, 0, -1):
                self.alts.append(self.taken + [k])
            v = 0
        self.taken.append(v)
        return v

    def recording(self):
        return len(self.taken) >= len(self.prefix) and not self.quiet

    def prove(self, name, goal, kind="post", rounds=3, assume=True, known=None):
        if isinstance(goal, Q):
            vs = [self.fresh("sk!i", IZ) for _ in range(goal.n)]
            self.li.push()
            self.dcache.append({})
            g = goal.fn(*vs)
            self.li.pop()
            self.dcache.pop()
        else:
            g = goal
        if self.recording():
            hyps, fa = list(self.pc), list(self.foralls)
            self.obls.append(Obl(name, g, hyps, fa, self.where, kind, rounds))
            self.obls[-1].known = known
        if assume:
            if isinstance(goal, Q):
                self.assume(goal)
            elif g is False:
                raise PathEnd
            else:
                self.assume(g)

    def quick(self, goal, tmo=3.0, fast=False):
        """synchronous attempt to prove a goal on the current path"""
        gs = goal
        if isinstance(goal, Q):
            vs = [self.fresh("sk!h", IZ) for _ in range(goal.n)]
            gs = goal.fn(*vs)
        if isinstance(gs, bool):
            return gs
        from . import focus
        if focus.prove(self.sums, list(self.pc), list(self.foralls), gs, budget=tmo)[0]:
            return True
        if fast and not self._intonly(gs):
            return False
        fs, lem = Prep(self.sums).close(list(self.pc), list(self.foralls), gs)
        s = z3.Solver()
        s.set("timeout", int(tmo * 1000))
        s.add(*fs, *lem)
        if s.check() == z3.unsat:
            return True
        if fast:
            return False
        r = solve_one((0, to_smt(fs + lem), to_smt(fs), tmo))
        return r[1] == "proved"

    # ------------------------------------------------------------------ arrays
    def symarr(self, name, shape, owner=None, dtype="real"):
        fn = self.freshfn(name, len(shape), RZ if dtype == "real" else z3.BoolSort())
        a = Arr(shape, lambda *i: fn(*[Z(x) for x in i]), owner, dtype)
        a.serial = self.new_serial()
        a.fn = fn
        if owner is not None:
            self.owned.append((a, a._at))
        return a

    def mkarr(self, shape, at, dtype="real"):
        a = Arr(shape, at, None, dtype)
        a.serial = self.new_serial()
        return a

    def lit(self, vals):
        """1-d array from python list of scalars"""
        vals = list(vals)

        def at(i):
            if conc(i):
                return vals[i]
            r = vals[-1]
            for k in range(len(vals) - 2, -1, -1):
                r = ite(cmp("==", i, k), vals[k], r)
            return r

        return self.mkarr((len(vals),), at, "bool" if vals and all(is_boollike(v) for v in vals) else "real")

    def copyarr(self, a):
        return self.mkarr(a.shape, a.snap(), a.dtype)

    def gset(self, name, v):
        """write ghost state"""
        for L in self.loops:
            k = ("ghost", name)
            if k not in L.known:
                if L.mode == "sum":
                    raise NoSummary("ghost write")
                self.persist[L.key]["mod"].add(k)
                raise Restart
        self.ghost[name] = v

    def note_write(self, obj, what):
        """obj: Arr root / Obj / ListObj / GhostObj about to be written; what: attribute name or None"""
        if isinstance(obj, Strided):
            raise Unsupported("write through a strided view")
        for L in self.loops:
            if getattr(obj, "serial", 0) <= L.serial:
                p = L.paths.get(id(obj))
                if p is None:
                    raise Unsupported("write in a loop to an object that is not reachable by name")
                k = (p, what)
                if k not in L.known:
                    if L.mode == "sum":
                        L.writes.append((obj, what))
                        continue
                    self.persist[L.key]["mod"].add(k)
                    raise Restart
        if getattr(obj, "shared", None) and not getattr(self, "frame_mode", False):
            raise Unsupported(f"{obj.shared} is written: state shared between calls")

    def share(self, v, label):
        """class attributes, module globals and default arguments are shared by all instances and calls"""
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, Arr):
                x = x.root()
                x.shared = label
                self.owned.append((x, x._at))
            elif isinstance(x, ListObj):
                x.shared = label
                self.owned.append((x, list(x.items)))
                todo.extend(x.items)
            elif isinstance(x, tuple):
                todo.extend(x)
            elif isinstance(x, Obj):
                x.shared = label
                self.owned.append((x, dict(x.attrs)))
                todo.extend(x.attrs.values())
        return v

    def setat(self, a, idx, val):
        if a.base is not None:
            return self.setat(a.base, a.to_base(idx), val)
        self.note_write(a, None)
        old, idx = a._at, tuple(idx)

        def at(*j):
            c = True
            for x, y in zip(idx, j):
                c = AND(c, decide(cmp("==", x, y)))
                if c is False:
                    return old(*j)
            if c is True:
                return val
            return ite(c, val, old(*j))

        a._at = at
        if hasattr(a, "cellwrites"):
            a.cellwrites.append((idx, val))

    def setall(self, a, at):
        if a.base is not None:
            base, bold = a.base, a.base._at
            self.note_write(base, None)

            def nat(*j):
                c, k = a.from_base(j)
                if c is False:
                    return bold(*j)
                if c is True:
                    return at(*k)
                return ite(c, at(*k), bold(*j))

            base._at = nat
            if hasattr(base, "cellwrites"):
                bs = [(self.fresh("rg!b", IZ), 0, d) for d in a.shape]
                base.cellwrites.append(("region", a.to_base([b for b, _, _ in bs]), bs))
            return
        self.note_write(a, None)
        a._at = at
        if hasattr(a, "cellwrites"):
            bs = [(self.fresh("rg!b", IZ), 0, d) for d in a.shape]
            a.cellwrites.append(("region", tuple(b for b, _, _ in bs), bs))

    name_squares = False  # set by tasks: the vector under a sum of squares gets a name, so that the sum stays atomic

    def _named_square(self, lo, hi, b, e):
        if not self.name_squares or self.nosplit or self.sums.depth or not z3.is_app(e) or e.decl().kind() != z3.Z3_OP_MUL:
            return None
        ch = [e.arg(i) for i in range(e.num_args())]
        if len(ch) != 2 or not ch[0].eq(ch[1]) or is_named(ch[0]):
            return None
        p, f = ch[0], self.freshfn("nm!sq", 1)
        self.assume(Q(1, lambda k: z3.Implies(z3.And(k >= Z(lo), k < Z(hi)), f(k) == z3.substitute(p, (b, k)))))
        return self.sums.close(lo, hi, b, f(b) * f(b))

    def same_dim(self, x, y):
        if conc(x) and conc(y):
            if x != y:
                self.prove(f"shapes agree ({x} vs {y})", False, kind="safety")
            return
        c = cmp("==", x, y)
        if self._decide(c) is True:
            return
        self.prove("array shapes agree", c, kind="safety")

    def bshape(self, a, b):
        """broadcast two shapes; returns shape and index maps"""
        n = max(len(a), len(b))
        pa, pb = (None,) * (n - len(a)) + tuple(a), (None,) * (n - len(b)) + tuple(b)
        out, ma, mb = [], [], []
        for i, (x, y) in enumerate(zip(pa, pb)):
            if x is None or (conc(x) and x == 1 and not (conc(y) and y == 1)):
                out.append(y)
                if x is not None:
                    ma.append(0)
                mb.append(("i", i))
            elif y is None or (conc(y) and y == 1 and not (conc(x) and x == 1)):
                out.append(x)
                if y is not None:
                    mb.append(0)
                ma.append(("i", i))
            else:
                self.same_dim(x, y)
                out.append(x)
                ma.append(("i", i))
                mb.append(("i", i))
        return tuple(out), ma, mb

    def elementwise(self, f, a, b, dtype="real"):
        if isinstance(a, ListObj):
            a = self.toarr(a)
        if isinstance(b, ListObj):
            b = self.toarr(b)
        if isinstance(a, tuple):
            a = self.toarr(a)
        if isinstance(b, tuple):
            b = self.toarr(b)
        sa, sb = (a.shape if isinstance(a, Arr) else ()), (b.shape if isinstance(b, Arr) else ())
        shape, ma, mb = self.bshape(sa, sb)
        fa = a.snap() if isinstance(a, Arr) else (lambda *_: a)
        fb = b.snap() if isinstance(b, Arr) else (lambda *_: b)

        def pick(m, j):
            return [j[x[1]] if isinstance(x, tuple) else 0 for x in m]

        if any(isinstance(x, Cx) or (isinstance(x, Arr) and x.dtype == "complex") for x in (a, b)):
            dtype = "complex"
        return self.mkarr(shape, lambda *j: f(fa(*pick(ma, j)), fb(*pick(mb, j))), dtype)

    def toarr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, (ListObj, tuple)):
            items = v.items if isinstance(v, ListObj) else list(v)
            if not items:
                return self.mkarr((0,), lambda i: 0)
            if all(is_num(x) or is_boollike(x) for x in items):
                return self.lit(items)
            rows = [self.toarr(x) for x in items]
            sn = [r.snap() for r in rows]

            def at(i, *j):
                if conc(i):
                    return sn[i](*j)
                r = sn[-1](*j)
                for k in range(len(sn) - 2, -1, -1):
                    r = ite(cmp("==", i, k), sn[k](*j), r)
                return r

            return self.mkarr((len(rows),) + rows[0].shape, at)
        if isinstance(v, SymSeq):
            e = v.at(z3.Int("b!probe"))
            if isinstance(e, Arr):
                sh = e.shape
                return self.mkarr((v.length,) + sh, lambda i, *j: v.at(i).get(*j))
            return self.mkarr((v.length,), lambda i: v.at(i))
        raise Unsupported(f"cannot make an array of {v!r}")

    def sumover(self, lo, hi, f):
        return self.sums.sum(lo, hi, f)

    def dot(self, a, b):
        a, b = self.toarr(a) if not isinstance(a, Arr) else a, self.toarr(b) if not isinstance(b, Arr) else b
        fa, fb = a.snap(), b.snap()
        if a.ndim == 1 and b.ndim == 1:
            self.same_dim(a.shape[0], b.shape[0])
            return self.sumover(0, a.shape[0], lambda k: mul(fa(k), fb(k)))
        if a.ndim == 2 and b.ndim == 1:
            self.same_dim(a.shape[1], b.shape[0])
            return self.mkarr((a.shape[0],), lambda i: self.sumover(0, a.shape[1], lambda k: mul(fa(i, k), fb(k))))
        if a.ndim == 1 and b.ndim == 2:
            self.same_dim(a.shape[0], b.shape[0])
            return self.mkarr((b.shape[1],), lambda j: self.sumover(0, a.shape[0], lambda k: mul(fa(k), fb(k, j))))
        if a.ndim == 2 and b.ndim == 2:
            self.same_dim(a.shape[1], b.shape[0])
            return self.mkarr((a.shape[0], b.shape[1]),
                              lambda i, j: self.sumover(0, a.shape[1], lambda k: mul(fa(i, k), fb(k, j))))
        raise Unsupported("dot of these ranks")

    # ------------------------------------------------------------------ indexing
    def norm_index(self, i, dim):
        if conc(i):
            if i < 0:
                i = add(dim, i)
            if conc(dim) and conc(i):
                if not 0 <= i < dim:
                    self.raise_("IndexError")
                return i
        if not is_intlike(i):
            raise Unsupported("non-integer index")
        if not conc(i) and self._decide(cmp(">=", i, 0)) is False:
            i = add(i, dim)
        ok = AND(cmp(">=", i, 0), cmp("<", i, dim))
        if self._decide(ok) is not True:
            self.prove("index in range", ok, kind="safety")
        return i

    def norm_slice(self, sl, dim):
        """returns (start, length, step)"""
        lo, hi, st = sl
        step = 1 if st is None else st
        if step == -1 and lo is None and hi is None:
            return sub(dim, 1), dim, -1
        if step != 1:
            raise Unsupported("slice step")

        def clamp(v, default):
            if v is None:
                return default
            if conc(v) and v < 0:
                v = add(dim, v)
            if conc(v) and conc(dim):
                return max(0, min(v, dim))
            ge, le = self._decide(cmp(">=", v, 0)), self._decide(cmp("<=", v, dim))
            if ge is False:
                v = add(v, dim)
                ge, le = self._decide(cmp(">=", v, 0)), self._decide(cmp("<=", v, dim))
            if ge is not True:
                v = ite(cmp("<", v, 0), 0, v)
            if le is not True:
                v = ite(cmp(">", v, dim), dim, v)
            return v

        a, b = clamp(lo, 0), clamp(hi, dim)
        ln = sub(b, a)
        if conc(ln):
            ln = max(ln, 0)
        elif self._decide(cmp(">=", ln, 0)) is not True:
            ln = ite(cmp("<", ln, 0), 0, ln)
        return a, ln, 1

    def getitem(self, o, ix):
        if isinstance(o, (tuple, ListObj)):
            items = o if isinstance(o, tuple) else o.items
            if isslice(ix):
                lo, hi, st = ix[1:]
                if not all(x is None or conc(x) for x in (lo, hi, st)):
                    raise Unsupported("symbolic slice of a sequence")
                r = items[slice(lo, hi, st)]
                return tuple(r) if isinstance(o, tuple) else self.mklist(r)
            if conc(ix):
                if not -len(items) <= ix < len(items):
                    self.raise_("IndexError")
                return items[ix]
            if is_intlike(ix):
                self.prove("index in range", AND(cmp(">=", ix, 0), cmp("<", ix, len(items))), kind="safety")
                if all(is_num(x) for x in items):
                    r = items[-1]
                    for k in range(len(items) - 2, -1, -1):
                        r = ite(cmp("==", ix, k), items[k], r)
                    return r
                for k in range(len(items)):
                    if k == len(items) - 1 or self.branch(cmp("==", ix, k)):
                        return items[k]
            raise Unsupported("sequence index")
        if isinstance(o, SymSeq):
            if is_intlike(ix):
                return o.at(self.norm_index(ix, o.length))
            raise Unsupported("slice of symbolic sequence")
        if isinstance(o, Arr):
            if isinstance(ix, Arr) and ix.dtype == "bool":
                raise Unsupported("boolean mask read")
            if isinstance(ix, Arr) and ix.dtype == "int" and o.ndim == 1 and ix.ndim == 1:  # fancy index: a copy
                fi, fo, dim = ix.snap(), o.snap(), o.shape[0]
                self.prove("index array in range", Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < Z(ix.shape[0])),
                           Z(AND(cmp(">=", fi(i), 0), cmp("<", fi(i), dim))))), kind="safety")
                return self.mkarr(ix.shape, lambda i: fo(fi(i)), o.dtype)
            if isslice(ix) and o.ndim == 1 and isinstance(ix[3], int) and ix[3] > 1:
                a, ln, _ = self.norm_slice((ix[1], ix[2], None), o.shape[0])
                from .lib import exact_quotient
                v = Strided(o, a, ix[3], -(-ln // ix[3]) if conc(ln) else exact_quotient(ln, ix[3]))
                v.serial = self.new_serial()
                return v
            ixs = ix if isinstance(ix, tuple) and not (isslice(ix)) else (ix,)
            if any(x is Ellipsis for x in ixs):
                raise Unsupported("ellipsis index")
            real = sum(x is not None for x in ixs)
            if real > o.ndim:
                self.raise_("IndexError")
            ixs = tuple(ixs) + (("slice", None, None, None),) * (o.ndim - real)
            axes, shape, allfix = [], [], True
            dims = iter(o.shape)
            for x in ixs:
                if x is None:
                    shape.append(1)
                    allfix = False
                    continue
                dim = next(dims)
                if isslice(x):
                    a, ln, st = self.norm_slice(x[1:], dim)
                    axes.append(("ax", a, st, len(shape)))
                    shape.append(ln)
                    allfix = False
                elif is_intlike(x):
                    axes.append(("fix", self.norm_index(x, dim)))
                else:
                    raise Unsupported("array index kind")
            if allfix:
                return o.get(*[a[1] for a in axes])
            v = view(o, axes, shape)
            v.serial = self.new_serial()
            return v
        if isinstance(o, Obj) and o.model is DICT_MODEL:
            return dict_get(self, o, [ix], {})
        if isinstance(o, Obj):
            return self.callmethod(o, "__getitem__", [ix])
        if hasattr(o, "model_getitem"):
            return o.model_getitem(self, ix)
        raise Unsupported(f"subscript of {type(o).__name__}")

    def setitem(self, o, ix, val):
        if isinstance(o, ListObj):
            if not conc(ix):
                raise Unsupported("symbolic list index write")
            self.note_write(o, None)
            o.items[ix] = val
            return
        if isinstance(o, Obj) and o.model is DICT_MODEL:
            ix = dict_key(ix)
            if ix not in o.attrs and self.loops:
                raise Unsupported("dict key added in a loop")
            self.setattr(o, ix, val)
            return
        if isinstance(o, tuple):
            self.raise_("TypeError")
        if isinstance(o, Arr):
            if isinstance(ix, Arr) and ix.dtype == "bool":
                m, old = ix.snap(), o.snap()
                if isinstance(val, Arr):
                    raise Unsupported("masked array assignment")
                self.setall(o, lambda *j: ite(m(*j), val, old(*j)))
                return
            if (isinstance(val, Cx) or (isinstance(val, Arr) and val.dtype == "complex")) and o.dtype != "complex":
                raise Unsupported("complex value stored in a real array")
            t = self.getitem_view(o, ix)
            if t[0] == "cell":
                if isinstance(val, Arr):
                    raise Unsupported("array into a cell")
                self.setat(o, t[1], val)
                return
            v = t[1]
            if isinstance(val, Arr):
                if val is v or (val.base is not None and val.base is v.root() and _sameaxes(val, v)):
                    return
                sh, ma, mb = self.bshape(v.shape, val.shape)
                src = val.snap()
                self.setall(v, lambda *j: src(*[j[x[1]] if isinstance(x, tuple) else 0 for x in mb]))
            elif is_num(val) or is_boollike(val) or isinstance(val, Cx):
                self.setall(v, lambda *j: val)
            elif isinstance(val, (ListObj, tuple)):
                return self.setitem(o, ix, self.toarr(val))
            else:
                raise Unsupported("slice assignment value")
            return
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def getitem_view(self, o, ix):
        ixs = ix if isinstance(ix, tuple) and not (isslice(ix)) else (ix,)
        if any(x is None or x is Ellipsis for x in ixs):
            raise Unsupported("new axis or ellipsis in an assignment")
        ixs = tuple(ixs) + (("slice", None, None, None),) * (o.ndim - len(ixs))
        if all(is_intlike(x) for x in ixs):
            return "cell", [self.norm_index(x, d) for x, d in zip(ixs, o.shape)]
        return "view", self.getitem(o, ix)

    # ------------------------------------------------------------------ operators
    def mklist(self, items):
        l = ListObj(items)
        l.serial = self.new_serial()
        return l

    def raise_(self, name, val=None):
        raise PyRaise(name, val)

    def scalar_div(self, a, b):
        if conc(b):
            if b == 0:
                self.raise_("ZeroDivisionError")
        else:
            c = cmp("!=", b, 0)
            if self._decide(c) is not True:
                self.on_division(b, c)
        return truediv(a, b)

    nodiv = False  # numpy floats: division by zero is not an exception; set by tasks that only ask about status

    def on_division(self, b, c):
        if self.nodiv:
            return
        if self.sums.depth == 0 and not self._has_bound(b):
            self.prove("divisor is nonzero", c, kind="safety")

    def _has_bound(self, e):
        cs = []
        int_consts(e, cs, set())
        return any(str(c).startswith("b!") for c in cs)

    def binop(self, op, a, b):
        if isinstance(a, VCell) or isinstance(b, VCell):
            raise Unsupported("arithmetic on opaque vectors")
        if op == "MatMult":
            return self.dot(a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            f = {"Add": add, "Sub": sub, "Mult": mul, "Div": self.arr_div, "Pow": self.spow,
                 "FloorDiv": self.floordiv, "Mod": self.mod,
                 "BitAnd": AND, "BitOr": OR}.get(op)
            if f is None:
                raise Unsupported(f"array operator {op}")
            if op == "Div":
                self.check_arr_divisor(b)
            return self.elementwise(f, a, b, "bool" if op in ("BitAnd", "BitOr") else "real")
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, ListObj) and isinstance(b, ListObj) and op == "Add":
            return self.mklist(a.items + b.items)
        if isinstance(a, ListObj) and op == "Mult" and conc(b):
            return self.mklist(a.items * b)
        if isinstance(b, ListObj) and op == "Mult" and conc(a):
            return self.mklist(b.items * a)
        if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
            return Str()
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if is_boollike(a) and op not in ("BitAnd", "BitOr"):
            a = ite(a, 1, 0)
        if is_boollike(b) and op not in ("BitAnd", "BitOr"):
            b = ite(b, 1, 0)
        if isinstance(a, Ext) or isinstance(b, Ext):
            raise Unsupported("arithmetic on a possibly infinite value")
        if isinstance(a, Inf) or isinstance(b, Inf):
            raise Unsupported("arithmetic on infinity")
        if op == "BitAnd" and is_boollike(a):
            return AND(a, b)
        if op == "BitOr" and is_boollike(a):
            return OR(a, b)
        if isinstance(a, Cx) or isinstance(b, Cx):
            f = {"Add": add, "Sub": sub, "Mult": mul}.get(op)
            if f is None or not all(isinstance(x, Cx) or is_num(x) for x in (a, b)):
                raise Unsupported("complex arithmetic")
            return f(a, b)
        if not (is_num(a) and is_num(b)):
            raise Unsupported(f"operator {op} on {type(a).__name__}, {type(b).__name__}")
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mult":
            return mul(a, b)
        if op == "Div":
            return self.scalar_div(a, b)
        if op == "Pow":
            return self.spow(a, b)
        if op == "FloorDiv":
            return self.floordiv(a, b)
        if op == "Mod":
            return self.mod(a, b)
        if op in ("LShift", "RShift") and conc(b):
            return mul(a, 2 ** b) if op == "LShift" else self.floordiv(a, 2 ** b)
        raise Unsupported(f"operator {op}")

    def arr_div(self, a, b):
        return truediv(a, b)

    def check_arr_divisor(self, b):
        if not isinstance(b, Arr):
            if conc(b):
                if b == 0:
                    raise Unsupported("array division by zero")
            elif self._decide(cmp("!=", b, 0)) is not True:
                self.on_division(b, cmp("!=", b, 0))
            return
        f, sh = b.snap(), b.shape

        def body(*i):
            g = AND(True, *[AND(cmp(">=", x, 0), cmp("<", x, d)) for x, d in zip(i, sh)])
            return z3.Implies(Z(g), Z(cmp("!=", f(*i), 0)))

        if all(conc(d) for d in sh) and b.ndim == 1 and sh[0] <= 8:
            for i in range(sh[0]):
                v = f(i)
                if conc(v) and v == 0:
                    raise Unsupported("array division by zero")
                if not conc(v):
                    self.on_division(v, cmp("!=", v, 0))
            return
        self.prove("array divisor is nonzero", Q(b.ndim, body), kind="safety")

    def spow(self, a, b):
        if conc(b) and isinstance(b, Fraction) and b.denominator == 1:
            n = int(b)
            a = R(a) if not conc(a) else Fraction(a)
        elif conc(b) and isinstance(b, int):
            n = b
        elif conc(b) and b == Fraction(1, 2):
            return self.sqrt(a)
        elif conc(a) and conc(b):
            raise Unsupported("fractional power")
        else:
            return POW(R(a), R(b))
        if n < 0:
            return self.scalar_div(1, self.spow(a, -n))
        r = 1 if n == 0 else a
        for _ in range(n - 1):
            r = mul(r, a)
        return r

    def floordiv(self, a, b):
        if conc(a) and conc(b) and b != 0:
            return a // b
        if both_int(a, b) and conc(b) and b > 0:
            return Z(a) / Z(b)
        if is_num(a) and conc(b) and b > 0:
            return R(z3.ToInt(R(a) / R(b)))
        raise Unsupported("floor division")

    def mod(self, a, b):
        if conc(a) and conc(b) and b != 0:
            return a % b
        if both_int(a, b):
            if conc(b) and b > 0:
                return Z(a) % Z(b)
            self.prove("modulus is positive", cmp(">", b, 0), kind="safety")
            # a mod b for 0 <= a < 2b without nonlinear integer arithmetic
            if self._decide(AND(cmp(">=", a, 0), cmp("<", a, b))) is True:
                return a
            if self._decide(AND(cmp(">=", a, 0), cmp("<=", a, b))) is True:
                return ite(cmp("==", a, b), 0, a)
            r = self.fresh("mod", IZ)
            q = self.fresh("quo", IZ)
            self.assume(z3.And(r >= 0, r < Z(b), Z(a) == q * Z(b) + r))
            return r
        raise Unsupported("modulo")

    def sqrt(self, x):
        if isinstance(x, Arr):
            f = x.snap()
            return self.mkarr(x.shape, lambda *j: SQRT(R(f(*j))))
        if conc(x):
            f = Fraction(x)
            if f < 0:
                self.raise_("ValueError")
            import math
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return Fraction(a, b)
        c = cmp(">=", x, 0)
        if self._decide(c) is not True and not self._has_bound(R(x)):
            self.prove("square root of a nonnegative number", c, kind="safety")
        s = SQRT(z3.simplify(R(x)))
        self.assume(z3.And(s >= 0, s * s == R(x)))
        return s

    def unary(self, op, v):
        if op == "Not":
            return NOT(self.truth(v, fork=False))
        if isinstance(v, Arr):
            f = v.snap()
            if op == "USub":
                return self.mkarr(v.shape, lambda *j: neg(f(*j)), v.dtype)
            if op == "UAdd":
                return self.copyarr(v)
            if op == "Invert" and v.dtype == "bool":
                return self.mkarr(v.shape, lambda *j: NOT(f(*j)), "bool")
        if isinstance(v, Inf):
            return Inf(-v.sign) if op == "USub" else v
        if isinstance(v, bool):
            v = int(v)
        if op == "USub" and (is_num(v) or isinstance(v, Cx)):
            return neg(v)
        if op == "UAdd" and is_num(v):
            return v
        raise Unsupported(f"unary {op}")

    def truth(self, v, fork=True):
        """python truth value: bool or z3 Bool"""
        if v is None:
            return False
        if is_boollike(v):
            return v
        if isinstance(v, (tuple, str)):
            return len(v) > 0
        if isinstance(v, ListObj):
            return len(v.items) > 0
        if is_num(v):
            return cmp("!=", v, 0)
        if isinstance(v, SymSeq):
            return cmp(">", v.length, 0)
        if isinstance(v, Arr):
            if v.shape == (1,) or v.shape == ():
                return self.truth(v.get(*([0] * v.ndim)))
            if v.ndim and conc(v.shape[0]) and v.shape[0] == 1:
                raise Unsupported("truth of array")
            self.raise_("ValueError")
        if isinstance(v, Obj) and v.model is DICT_MODEL:
            return len(v.attrs) > 0
        if isinstance(v, (Obj, EnumMember, Func, Bound, ClassRef, VCell)) or hasattr(v, "truthy"):
            return True
        raise Unsupported(f"truth of {type(v).__name__}")

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.same(a, b)
            return r if op == "Is" else NOT(r)
        if op in ("In", "NotIn"):
            items = b.items if isinstance(b, ListObj) else b
            if isinstance(b, Obj) and b.model is DICT_MODEL:
                r = dict_key(a) in b.attrs
                return r if op == "In" else not r
            if not isinstance(items, (tuple, list)):
                raise Unsupported("in")
            r = OR(False, *[self.compare("Eq", a, x) for x in items])
            return r if op == "In" else NOT(r)
        sy = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.elementwise(lambda x, y: cmp(sy, x, y), a, b, "bool")
        if is_boollike(a) and is_boollike(b) and sy in ("==", "!="):
            if isinstance(a, bool) and isinstance(b, bool):
                return (a == b) if sy == "==" else a != b
            r = Z(a) == Z(b)
            return r if sy == "==" else z3.Not(r)
        if is_boollike(a) and is_num(b):
            a = int(a) if isinstance(a, bool) else ite(a, 1, 0)
        if is_boollike(b) and is_num(a):
            b = int(b) if isinstance(b, bool) else ite(b, 1, 0)
        num = lambda x: is_num(x) or isinstance(x, (Inf, Ext))
        if num(a) and num(b):
            return cmp(sy, a, b)
        if sy in ("==", "!="):
            if isinstance(a, tuple) and isinstance(b, tuple):
                r = len(a) == len(b) and AND(True, *[self.compare("Eq", x, y) for x, y in zip(a, b)])
            elif isinstance(a, (EnumMember, TypeRef, str)) or isinstance(b, (EnumMember, TypeRef, str)) or a is None or b is None:
                r = self.same(a, b) if type(a) is type(b) else False
            elif isinstance(a, Obj) and isinstance(b, Obj):
                r = a is b
            else:
                raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")
            return r if sy == "==" else NOT(r)
        raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def same(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, TypeRef) and isinstance(b, TypeRef):
            return a.name == b.name
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, EnumMember) and isinstance(b, EnumMember):
            return a.cls == b.cls and a.name == b.name
        if is_z(a) and is_boollike(a) and isinstance(b, bool):
            return a if b else z3.Not(a)
        if is_z(a) or is_z(b) or conc(a) or conc(b):
            if is_num(a) != is_num(b):
                return False
            raise Unsupported("identity of numbers")
        return a is b

    # ------------------------------------------------------------------ names, attributes, calls
    def lookup(self, frame, name):
        f = frame
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if v is POISON:
                    raise Unsupported(f"local {name} may be stale after a loop")
                return v
            f = f.closure
        return self.modname(frame.info.mod, name)

    def modname(self, mod, name):
        if mod.odd:
            raise Unsupported(f"module {mod.name} runs code when it is imported: {mod.odd[0]}")
        if name in mod.funcs:
            return Func(mod.funcs[name])
        if name in mod.classes:
            return ClassRef(mod.classes[name])
        if name in mod.assigns:
            k = (mod.name, name)
            if k not in self.modconsts:
                self.modconsts[k] = self.share(self.eval(mod.assigns[name], Frame(_ModInfo(mod), {})), f"module variable {name}")
            return self.modconsts[k]
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == "mod":
                m = self.src.module(imp[1]) if imp[1].startswith("ellalgo") else None
                return ModRef(imp[1])
            base, n = imp[1], imp[2]
            if base.startswith("ellalgo"):
                m = self.src.module(base)
                if m is not None:
                    if n in m.funcs or n in m.classes or n in m.assigns or n in m.imports:
                        return self.modname(m, n)
                    if self.src.module(base + "." + n) is not None:
                        return ModRef(base + "." + n)
                raise Unsupported(f"import {base}.{n}")
            from . import lib
            return lib.module_attr(self, base, n)
        from . import lib
        return lib.builtin(self, name)

    def mro(self, ci):
        out = [ci]
        for b in ci.bases:
            e = b.value if isinstance(b, ast.Subscript) else b
            if isinstance(e, ast.Name):
                try:
                    v = self.modname(ci.mod, e.id)
                except Unsupported:
                    continue
                if isinstance(v, ClassRef):
                    out += self.mro(v.info)
        return out

    def find_member(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return "m", c.methods[name], c
            if name in c.attrs:
                return "a", c.attrs[name], c
        return None

    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            if o.model is not None and name in o.model:
                return Bound(Model(name, o.model[name]), o)
            if o.cls is not None and hasattr(o.cls, "methods"):
                m = self.find_member(o.cls, name)
                if m:
                    if m[0] == "m":
                        if m[1].isprop:
                            return self.call(Bound(Func(m[1]), o), [], {})
                        if m[1].isstatic:
                            return Func(m[1])
                        return Bound(Func(m[1]), o if not m[1].isclassm else ClassRef(o.cls))
                    k = ("clsattr", m[2].qual, name)
                    if k not in self.modconsts:
                        self.modconsts[k] = self.share(self.eval(m[1], Frame(_ModInfo(m[2].mod), {})), f"class attribute {name}")
                    return self.modconsts[k]
            if name == "__class__":
                return ClassRef(o.cls)
            self.raise_("AttributeError")
        if isinstance(o, ClassRef):
            ci = o.info
            if ci.is_enum and name in ci.attrs:
                return EnumMember(ci.name, name, None)
            m = self.find_member(ci, name)
            if m and m[0] == "m":
                return Func(m[1])
            if m:
                k = ("clsattr", m[2].qual, name)
                if k not in self.modconsts:
                    self.modconsts[k] = self.share(self.eval(m[1], Frame(_ModInfo(m[2].mod), {})), f"class attribute {name}")
                return self.modconsts[k]
            raise Unsupported(f"class attribute {name}")
        if isinstance(o, ModRef):
            if o.name.startswith("ellalgo"):
                return self.modname(self.src.module(o.name), name)
            from . import lib
            return lib.module_attr(self, o.name, name)
        from . import lib
        return lib.value_attr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            self.note_write(o, name)
            if o.model is not None and "__setattr__" in o.model:
                return o.model["__setattr__"](self, o, [name, v], {})
            o.attrs[name] = v
            return
        if isinstance(o, ClassRef) and getattr(self, "frame_mode", False):
            self.prove(f"frame: class attribute {o.info.name}.{name}, shared by all instances, is not assigned", False, kind="frame", assume=False)
            return
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    def callmethod(self, o, name, args, kwargs=None):
        return self.call(self.getattr(o, name), args, kwargs or {})

    def plain_class(self, ci):
        """the class and its bases have no special methods or decorators that change what attribute access, copying, ... mean"""
        for c in self.mro(ci):
            if c.odd:
                raise Unsupported(f"class {c.name}: {c.odd[0]}")
            if c.mod.odd:
                raise Unsupported(f"module {c.mod.name} runs code when it is imported: {c.mod.odd[0]}")

    def instantiate(self, ci, args, kwargs):
        if ci.is_enum:
            raise Unsupported("enum by value")
        self.plain_class(ci)
        o = Obj(ci)
        o.serial = self.new_serial()
        c = self.contracts.get(ci.qual)
        if c is not None and self.target != ci.qual:
            self.modular.add(ci.qual)
            r = c.construct(self, o, args, kwargs)
            if r is not None:
                return r
        m = self.find_member(ci, "__init__")
        if m:
            self.call(Bound(Func(m[1]), o), args, kwargs)
        elif args or kwargs:
            raise Unsupported(f"constructor of {ci.name}")
        return o

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Model):
            return f.fn(self, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.func, Model):
                return f.func.fn(self, f.self_, args, kwargs)
            return self.call_func(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, ClassRef):
            return self.instantiate(f.info, args, kwargs)
        if isinstance(f, TypeRef):
            from . import lib
            return lib.type_call(self, f, args, kwargs)
        if isinstance(f, ExcClass):
            return ExcVal(f.name)
        if isinstance(f, Obj):
            return self.callmethod(f, "__call__", args, kwargs)
        raise Unsupported(f"call of {type(f).__name__}")

    def bind(self, info, args, kwargs, closure):
        a = info.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[: len(names)]
        if len(args) > len(names):
            self.raise_("TypeError")
        for n, v in zip(names, args):
            env[n] = v
        defaults = a.defaults
        dn = names[len(names) - len(defaults):]
        for n, d in zip(dn, defaults):
            if n not in env and n not in kwargs:
                env[n] = self.share(self.eval(d, Frame(_ModInfo(info.mod), {}, closure)), f"default of {n}")
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in kwargs and d is not None:
                env[x.arg] = self.share(self.eval(d, Frame(_ModInfo(info.mod), {}, closure)), f"default of {x.arg}")
        kwn = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in kwn:
                env[k] = v
            else:
                self.raise_("TypeError")
        for n in names + kwn:
            if n not in env:
                self.raise_("TypeError")
        return env

    def call_func(self, f, args, kwargs):
        info = f.info
        if info.unknown:
            raise Unsupported(f"decorator {info.unknown[0]}")
        c = self.contracts.get(info.qual)
        if c is not None and info.qual != self.target:
            env = self.bind(info, args, kwargs, f.closure)
            r = c.call(self, env)
            if r is not NotImplemented:
                self.modular.add(info.qual)
                return r
        return self.inline(f, args, kwargs)

    def inline(self, f, args, kwargs):
        info = f.info
        if info.unknown or info.mod.odd:
            raise Unsupported(f"decorator {info.unknown[0]}" if info.unknown else f"module {info.mod.name} runs code when it is imported: {info.mod.odd[0]}")
        self.inlined.add(info.qual)
        if self.depth > 40:
            raise Unsupported("recursion")
        env = self.bind(info, args, kwargs, f.closure)
        fr = Frame(info, env, f.closure)
        if isinstance(info.node, ast.Lambda):
            return self.eval(info.node.body, fr)
        self.depth += 1
        self.frames.append(fr)
        try:
            self.block(info.node.body, fr)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.frames.pop()
            self.depth -= 1

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            if v != v:
                raise Unsupported("nan literal")
            if v in (float("inf"), float("-inf")):
                return Inf(1 if v > 0 else -1)
            return Fraction(repr(v))
        if v is None or isinstance(v, (bool, int, str)):
            return v
        if v is Ellipsis:
            return Str()
        if isinstance(v, complex):
            return Cx(Fraction(repr(v.real)), Fraction(repr(v.imag)))
        raise Unsupported(f"constant {v!r}")

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.concrete_items(self.eval(x.value, fr))
            else:
                out.append(self.eval(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        return self.mklist(self.e_Tuple(e, fr))

    def e_Dict(self, e, fr):
        o = Obj(None, "dict")
        o.serial = self.new_serial()
        o.model = DICT_MODEL
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            o.attrs[dict_key(self.eval(k, fr))] = self.eval(v, fr)
        return o

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        self.mark(e, fr)
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        return self.unary(type(e.op).__name__, v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        last = None
        for i, x in enumerate(e.values):
            last = self.eval(x, fr)
            if i == len(e.values) - 1:
                return last
            t = self.truth(last)
            t = self.branch(t)
            if isand and not t:
                return last if not is_z(last) else False
            if not isand and t:
                return last if not is_z(last) or not is_boollike(last) else True
        return last

    def e_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(c, fr)
            r = self.compare(type(op).__name__, a, b)
            if len(e.ops) == 1:
                return r
            res = AND(res, r)
            if res is False:
                return False
            a = b
        return res

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        if not isinstance(c, bool) and self._decide(c) is None and self.nosplit:
            a, b = self.eval(e.body, fr), self.eval(e.orelse, fr)
            return ite(c, a, b)
        return self.eval(e.body if self.branch(c) else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Lambda(self, e, fr):
        from .source import FuncInfo
        return Func(FuncInfo(fr.info.mod, e, fr.info.cls if hasattr(fr.info, "cls") else None), fr)

    def e_JoinedStr(self, e, fr):
        return Str()

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.eval(x, fr)
        return ("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(o, (TypeRef, ClassRef)):
            return o
        ix = self.eval(e.slice, fr)
        self.mark(e, fr)
        return self.getitem(o, ix)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            raise Unsupported("super()")
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.concrete_items(self.eval(a.value, fr))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("**kwargs")
            kw[k.arg] = self.eval(k.value, fr)
        self.mark(e, fr)
        return self.call(f, args, kw)

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def mark(self, node, fr):
        self.where = f"{getattr(fr.info, 'qual', '?')}:{getattr(node, 'lineno', 0)}"

    def concrete_items(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListObj):
            return list(v.items)
        if isinstance(v, RangeVal) and conc(v.lo) and conc(v.hi) and conc(v.step):
            return list(range(v.lo, v.hi, v.step))
        if isinstance(v, Arr) and v.ndim >= 1 and conc(v.shape[0]):
            return [self.getitem(v, i) for i in range(v.shape[0])]
        if isinstance(v, SymSeq) and conc(v.length):
            return [v.at(i) for i in range(v.length)]
        if isinstance(v, GenVal):
            return self.concrete_items(v.seq)
        raise Unsupported("iteration over a value of symbolic length here")

    def seq_of(self, v):
        """(length, at) of an iterable"""
        if isinstance(v, GenVal):
            v = v.seq
        if isinstance(v, RangeVal):
            n = self.range_len(v)
            return n, lambda i: add(v.lo, mul(v.step, i)) if v.step != 1 else add(v.lo, i)
        if isinstance(v, SymSeq):
            return v.length, v.at
        if isinstance(v, tuple) or isinstance(v, ListObj):
            items = list(v) if isinstance(v, tuple) else list(v.items)

            def at(i):
                if conc(i):
                    return items[i]
                return self.getitem(tuple(items), i)
            return len(items), at
        if isinstance(v, Arr):
            if v.ndim == 1:
                s = v.snap()
                return v.shape[0], lambda i: s(i)
            return v.shape[0], lambda i: self.getitem(v, i)
        raise Unsupported(f"iteration over {type(v).__name__}")

    def range_len(self, v):
        if conc(v.lo) and conc(v.hi):
            return len(range(v.lo, v.hi, v.step))
        if v.step == 1:
            n = sub(v.hi, v.lo)
        elif v.step == -1:
            n = sub(v.lo, v.hi)
        else:
            raise Unsupported("range step")
        if not conc(n) and self._decide(cmp(">=", n, 0)) is not True:
            n = ite(cmp(">=", n, 0), n, 0)
        return n

    def comp(self, elt, gens, fr):
        if len(gens) != 1 or gens[0].is_async:
            # nested generators only when everything is concrete
            out = []

            def rec(gi, env):
                if gi == len(gens):
                    out.append(self.eval(elt, env))
                    return
                for x in self.concrete_items(self.eval(gens[gi].iter, env)):
                    f2 = Frame(fr.info, {}, env)
                    self.assign(gens[gi].target, x, f2)
                    if all(self.branch(self.truth(self.eval(c, f2))) for c in gens[gi].ifs):
                        rec(gi + 1, f2)
            rec(0, fr)
            return SymSeq(len(out), lambda i: out[i])
        g = gens[0]
        it = self.eval(g.iter, fr)
        n, at = self.seq_of(it)
        if conc(n):
            out = []
            for k in range(n):
                f2 = Frame(fr.info, {}, fr)
                self.assign(g.target, at(k), f2)
                if all(self.branch(self.truth(self.eval(c, f2))) for c in g.ifs):
                    out.append(self.eval(elt, f2))
            return SymSeq(len(out), lambda i: out[i] if conc(i) else self.getitem(tuple(out), i))
        # probe once at an arbitrary index for side effects and safety obligations
        b = self.fresh("it!c", IZ)
        self.li.push()
        npc, nfa = len(self.pc), len(self.foralls)
        self.dcache.append({})
        self.nosplit += 1
        saved = list(self.pc)
        try:
            self.pc.append(b >= 0)
            self.pc.append(b < Z(n))
            self.li.add(b >= 0, b < Z(n))
            f2 = Frame(fr.info, {}, fr)
            self.assign(g.target, at(b), f2)
            cond = True
            for c in g.ifs:
                cond = AND(cond, self.truth(self.eval(c, f2)))
                if not isinstance(cond, bool):
                    self.pc.append(cond)
            proto = self.eval(elt, f2)
        except NoSummary as ex:
            raise Unsupported(f"comprehension: {ex}")
        finally:
            self.nosplit -= 1
            self.li.pop()
            self.dcache.pop()
            extra = [f for f in self.pc[npc + 2:] if not contains(f, b)] if not g.ifs else []
            self.pc = saved + extra

        def inst(i):
            return self.subst(proto, b, i)

        if g.ifs:
            return FiltSeq(n, inst, lambda i: self.subst(cond, b, i))
        return SymSeq(n, inst)

    def subst(self, v, b, i):
        if is_z(v):
            return z3.substitute(v, (b, Z(i)))
        if conc(v) or v is None or isinstance(v, (bool, str, EnumMember)):
            return v
        if isinstance(v, tuple):
            return tuple(self.subst(x, b, i) for x in v)
        if isinstance(v, Arr):
            f = v.snap()
            return self.mkarr(tuple(self.subst(d, b, i) for d in v.shape), lambda *j: self.subst(f(*j), b, i), v.dtype)
        raise Unsupported("element kind of a symbolic comprehension")

    def e_ListComp(self, e, fr):
        s = self.comp(e.elt, e.generators, fr)
        if conc(s.length):
            return self.mklist([s.at(i) for i in range(s.length)])
        return s

    def e_GeneratorExp(self, e, fr):
        return GenVal(self.comp(e.elt, e.generators, fr))

    # ------------------------------------------------------------------ statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        self.mark(s, fr)
        m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        self.eval(s.value, fr)

    def s_Return(self, s, fr):
        raise ReturnEx(None if s.value is None else self.eval(s.value, fr))

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Import(self, s, fr):
        for a in s.names:
            fr.env[a.asname or a.name.split(".")[0]] = ModRef(a.name)

    def s_ImportFrom(self, s, fr):
        from . import lib
        for a in s.names:
            fr.env[a.asname or a.name] = lib.module_attr(self, s.module, a.name)

    def s_FunctionDef(self, s, fr):
        from .source import FuncInfo
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        fr.env[s.name] = Func(FuncInfo(fr.info.mod, s, getattr(fr.info, "cls", None)), fr)

    def s_Assert(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        if not self.branch(c):
            self.raise_("AssertionError")

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise Unsupported("bare raise")
        v = self.eval(s.exc, fr)
        if isinstance(v, ExcClass):
            self.raise_(v.name)
        if isinstance(v, ExcVal):
            self.raise_(v.name)
        raise Unsupported("raise")

    def s_Try(self, s, fr):
        try:
            self.block(s.body, fr)
        except PyRaise as ex:
            for h in s.handlers:
                names = []
                if h.type is not None:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = [t.id if isinstance(t, ast.Name) else t.attr for t in ts]
                ok = h.type is None or ex.name in names or "Exception" in names or any(p in names for p in EXC_PARENTS.get(ex.name, ()))
                if ok:
                    if h.name:
                        fr.env[h.name] = ExcVal(ex.name)
                    self.block(h.body, fr)
                    break
            else:
                if s.finalbody:
                    self.block(s.finalbody, fr)
                raise
        else:
            self.block(s.orelse, fr)
        if s.finalbody:
            self.block(s.finalbody, fr)

    def s_If(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        if self.branch(c):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def setlocal(self, fr, name, v):
        for L in self.loops:
            if L.frame is fr and name in L.prelocals:
                k = ("local", name)
                if k not in L.known:
                    if L.mode == "sum":
                        L.writes.append((fr, name))
                        continue
                    self.persist[L.key]["mod"].add(k)
                    raise Restart
        fr.env[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setlocal(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            items = self.unpack(v, None if star else len(t.elts))
            if star:
                i = star[0]
                n = len(t.elts) - 1
                vals = items[:i] + [self.mklist(items[i:len(items) - (n - i)])] + items[len(items) - (n - i):]
                for x, y in zip(t.elts, vals):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
                return
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if hasattr(v, "unpack"):
            return v.unpack(self, n)
        items = self.concrete_items(v)
        if n is not None and len(items) != n:
            self.raise_("ValueError")
        return items

    def inplace(self, op, cur, v):
        """cur <op>= v ; returns the new value (same object for arrays)"""
        if isinstance(cur, Arr):
            res = self.binop(op, cur, v)
            if isinstance(res, Arr) and len(res.shape) == len(cur.shape):
                for x, y in zip(res.shape, cur.shape):
                    self.same_dim(x, y)
                self.setall(cur, res.snap())
                return cur
            raise Unsupported("in-place operation changes shape")
        if isinstance(cur, ListObj) and op == "Add":
            self.note_write(cur, None)
            cur.items += self.concrete_items(v)
            return cur
        return self.binop(op, cur, v)

    def s_AugAssign(self, s, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            v = self.eval(s.value, fr)
            r = self.inplace(op, cur, v)
            if r is not cur or not isinstance(cur, (Arr, ListObj)):
                self.setlocal(fr, t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.eval(s.value, fr)
            r = self.inplace(op, cur, v)
            if r is not cur or not isinstance(cur, (Arr, ListObj)) or t.attr not in getattr(o, "attrs", {}):
                self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            ix = self.eval(t.slice, fr)
            if isinstance(o, Arr) and isinstance(ix, Arr) and ix.dtype == "bool":
                m, old = ix.snap(), o.snap()
                v = self.eval(s.value, fr)
                res = self.binop(op, o, v).snap()
                self.setall(o, lambda *j: ite(m(*j), res(*j), old(*j)))
                return
            cur = self.getitem(o, ix)
            v = self.eval(s.value, fr)
            r = self.inplace(op, cur, v)
            if not (isinstance(cur, Arr) and r is cur):
                self.setitem(o, ix, r)
        else:
            raise Unsupported("augmented assignment target")

    # ------------------------------------------------------------------ loops
    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        from .loops import run_for
        run_for(self, s, it, fr)

    def s_SetCounter(self, s, fr):
        self.setlocal(fr, s.name, s.value)

    def s_While(self, s, fr):
        from .loops import run_while
        run_while(self, s, fr)


class _ModInfo:
    def __init__(self, mod):
        self.mod, self.qual, self.cls = mod, mod.name, None


def _sameaxes(a, b):
    if b.base is None or a.axes is None:
        return False
    for x, y in zip(a.axes, b.axes):
        if x[0] != y[0]:
            return False
        for p, q in zip(x[1:], y[1:]):
            if conc(p) and conc(q):
                if p != q:
                    return False
            elif not Z(p).eq(Z(q)):
                return False
    return True


SQRT = z3.Function("SQRT", RZ, RZ)
EXP = z3.Function("EXP", RZ, RZ)
LOG = z3.Function("LOG", RZ, RZ)
COS = z3.Function("COS", RZ, RZ)
SIN = z3.Function("SIN", RZ, RZ)
ROUND = z3.Function("ROUND", RZ, RZ)
POW = z3.Function("POW", RZ, RZ, RZ)
PI = z3.Real("PI")
