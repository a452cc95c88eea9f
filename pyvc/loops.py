"""Loops: unrolling of concrete ones, automatic summaries of pointwise and accumulating ones, invariants otherwise."""
import ast
import itertools
from fractions import Fraction

import z3

from .interp import (BreakEx, ContinueEx, Frame, GhostObj, LoopRec, PathEnd, POISON, PyRaise, Q, Restart, ReturnEx)
from .sums import IZ, RZ, contains, int_consts, numeral, poly
from .values import *

UNROLL = 40


class SpecMismatch(Exception):
    pass


def info(I, key):
    return I.persist.setdefault(key, {"mod": set(), "kinds": {}, "drop": set(), "nosum": False, "spec": None})


def run_for(I, s, it, fr):
    items = None
    try:
        items = I.concrete_items(it) if not isinstance(it, GenVal) else I.concrete_items(it.seq)
    except Unsupported:
        pass
    if items is not None:
        if len(items) > UNROLL:
            raise Unsupported("long concrete loop")
        for x in items:
            I.assign(s.target, x, fr)
            try:
                I.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        I.block(s.orelse, fr)
        return
    n, at = I.seq_of(it)
    key = (fr.info.qual, s.lineno, s.col_offset, "for")
    P = info(I, key)
    if not P["nosum"] and not _has_jump(s.body):
        try:
            summarise(I, s, fr, key, n, at)
            I.block(s.orelse, fr)
            I.notes.append(f"loop {key[0]}:{key[1]} summarised automatically")
            return
        except NoSummary as ex:
            P["nosum"] = True
            P["why"] = str(ex)
            raise Restart
    run_inv(I, s, fr, key, n, at)


def _has_jump(body):
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise)) or isinstance(x, ast.While) and counted(x) is None:
                return True
    return False


class SetCounter(ast.Pass):
    """the counter of a while loop that ran to completion has the first value that fails the test"""
    _fields = ()


def _negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    flip = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in flip:
        return ast.copy_location(ast.Compare(t.left, [flip[type(t.ops[0])]()], t.comparators), t)
    return ast.copy_location(ast.UnaryOp(ast.Not(), t), t)


def _own(body):
    """statements of a loop body, without those of nested loops and functions"""
    st = list(body)
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))


def counted(s):
    """A while loop over an integer counter with a constant step and a bound that the body cannot change, in the form
    (counter, step, comparison, offset, bound expression, rest of the test, body); None if it has another form."""
    if hasattr(s, "_counted"):
        return s._counted
    s._counted = None
    test, body = s.test, list(s.body)
    if isinstance(test, ast.Constant) and test.value in (True, 1) and body and isinstance(body[0], ast.If) and not body[0].orelse and \
            len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break):
        test, body = _negate(body[0].test), body[1:]
    rest = []
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
        test, rest = test.values[0], test.values[1:]
    if isinstance(test, ast.Name):
        test = ast.copy_location(ast.Compare(test, [ast.NotEq()], [ast.copy_location(ast.Constant(0), test)]), test)
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return None
    steps = {}
    for i, x in enumerate(body):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, (ast.Add, ast.Sub)) and \
                isinstance(x.value, ast.Constant) and type(x.value.value) is int and x.value.value > 0:
            steps.setdefault(x.target.id, []).append((i, x.value.value if isinstance(x.op, ast.Add) else -x.value.value))
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.BinOp) and \
                isinstance(x.value.left, ast.Name) and x.value.left.id == x.targets[0].id and isinstance(x.value.op, (ast.Add, ast.Sub)) and \
                isinstance(x.value.right, ast.Constant) and type(x.value.right.value) is int and x.value.right.value > 0:
            steps.setdefault(x.targets[0].id, []).append((i, x.value.right.value if isinstance(x.value.op, ast.Add) else -x.value.right.value))
    writes, attrs = {}, set()
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                writes[x.id] = writes.get(x.id, 0) + 1
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                attrs.add(x.attr)
            elif isinstance(x, (ast.Global, ast.Nonlocal, ast.NamedExpr, ast.Yield)):
                return None

    def fixed(e):
        for x in ast.walk(e):
            if isinstance(x, ast.Name):
                if x.id in writes:
                    return False
            elif isinstance(x, ast.Attribute):
                if x.attr in attrs:
                    return False
            elif not isinstance(x, (ast.Constant, ast.BinOp, ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.UnaryOp, ast.USub, ast.Load)):
                return False
        return True

    def side(e):
        if isinstance(e, ast.Name):
            return e.id, 0
        if isinstance(e, ast.BinOp) and isinstance(e.left, ast.Name) and isinstance(e.op, (ast.Add, ast.Sub)) and \
                isinstance(e.right, ast.Constant) and type(e.right.value) is int:
            return e.left.id, e.right.value if isinstance(e.op, ast.Add) else -e.right.value
        return None, 0

    op = type(test.ops[0])
    mirror = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}
    for a, b, o in ((test.left, test.comparators[0], op), (test.comparators[0], test.left, mirror.get(op))):
        c, off = side(a)
        if c is None or o is None or len(steps.get(c, ())) != 1 or writes.get(c) != 1 or not fixed(b):
            continue
        i, k = steps[c][0]
        if o not in (ast.Lt, ast.LtE) and k > 0 and o is not ast.NotEq or o not in (ast.Gt, ast.GtE) and k < 0 and o is not ast.NotEq:
            continue
        if o is ast.NotEq and abs(k) != 1:
            continue
        if any(isinstance(x, ast.Continue) for x in _own(body[:i])):
            continue
        if rest:
            if s.orelse:
                continue
            cond = rest[0] if len(rest) == 1 else ast.copy_location(ast.BoolOp(ast.And(), rest), rest[0])
            stop = ast.copy_location(ast.If(ast.copy_location(ast.UnaryOp(ast.Not(), cond), cond), [ast.copy_location(ast.Break(), cond)], []), cond)
            body = [stop] + body
        s._counted = (c, k, o, off, b, body)
        return s._counted
    return None


def attr_fixed(I, e):
    """attributes in a loop bound must not be written anywhere but in constructors"""
    names = {x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute)}
    if not names:
        return True
    for m in I.src.everything():
        for f in ast.walk(m.tree):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.name != "__init__":
                if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in names for x in ast.walk(f)):
                    return False
    return True


def run_while(I, s, fr):
    c = counted(s)
    if c is not None and attr_fixed(I, c[4]):
        name, k, op, off, bound, body = c
        start, b = fr.env.get(name), sub(I.eval(bound, fr), off)
        ok = is_intlike(start) and is_intlike(b)
        if ok and op is ast.NotEq:
            g = cmp("<=", start, b) if k > 0 else cmp(">=", start, b)
            ok = g if isinstance(g, bool) else I.quick(g, 1.5)
        if ok:
            if op is ast.LtE:
                b = add(b, 1)
            elif op is ast.GtE:
                b = sub(b, 1)
            end = SetCounter()
            f = ast.copy_location(ast.For(target=ast.copy_location(ast.Name(name, ast.Store()), s), iter=s.test, body=body, orelse=[end] + s.orelse), s)
            ast.copy_location(end, s)
            it = RangeVal(start, b, k)
            end.fr, end.name = fr, name
            m = I.seq_of(it)[0]
            end.value = add(start, mul(k, m))
            run_for(I, f, it, fr)
            return
    key = (fr.info.qual, s.lineno, s.col_offset, "while")
    info(I, key)
    run_inv(I, s, fr, key, None, None)


# ---------------------------------------------------------------------- reachable heap

def reach(I, fr):
    """id -> access path, and id -> object, for mutable objects reachable from the frame and the named roots"""
    paths, objs = {}, {}
    todo = []
    f = fr
    depth = 0
    while f is not None and depth < 4:
        for k, v in f.env.items():
            todo.append((f"{'^' * depth}{k}", v))
        f = f.closure
        depth += 1
    for i, g in enumerate(reversed(I.frames[:-1] if I.frames and I.frames[-1] is fr else I.frames)):
        for k, v in g.env.items():
            todo.append((f"frame{i}.{k}", v))
    for k, v in getattr(I, "roots", {}).items():
        todo.append((f"root.{k}", v))
    # an array held by an object is known by the object's attribute, also when a local is another name for it
    own = [(p, v) for p, v in todo if isinstance(v, Obj)]
    seen = set()
    while own:
        p, v = own.pop(0)
        if isinstance(v, Arr):
            v = v.root()
            if id(v) not in paths:
                paths[id(v)], objs[id(v)] = p, v
        elif isinstance(v, Obj) and id(v) not in seen:
            seen.add(id(v))
            own += [(f"{p}.{k}", x) for k, x in v.attrs.items()]
    while todo:
        p, v = todo.pop(0)
        if isinstance(v, Arr):
            v = v.root()
            if id(v) not in paths:
                paths[id(v)], objs[id(v)] = p, v
        elif isinstance(v, Obj):
            if id(v) not in paths:
                paths[id(v)], objs[id(v)] = p, v
                for k, x in v.attrs.items():
                    todo.append((f"{p}.{k}", x))
        elif isinstance(v, VCell):
            if id(v) not in paths:
                paths[id(v)], objs[id(v)] = p, v
        elif isinstance(v, (tuple, ListObj)):
            if isinstance(v, ListObj) and id(v) not in paths:
                paths[id(v)], objs[id(v)] = p, v
            for i, x in enumerate(v if isinstance(v, tuple) else v.items):
                todo.append((f"{p}[{i}]", x))
        elif isinstance(v, Bound):
            todo.append((f"{p}.self", v.self_))
        elif isinstance(v, Func) and v.closure is not None and len(p) < 60:
            for k, x in v.closure.env.items():
                todo.append((f"{p}~{k}", x))
    return paths, objs


# ---------------------------------------------------------------------- automatic summaries

def _state(I, fr, objs):
    st = {"env": dict(fr.env), "arr": {}, "attrs": {}, "lists": {}, "ghost": dict(I.ghost)}
    for i, o in objs.items():
        if isinstance(o, Arr):
            st["arr"][i] = (o._at, getattr(o, "cellwrites", None))
        elif isinstance(o, Obj):
            st["attrs"][i] = dict(o.attrs)
        elif isinstance(o, ListObj):
            st["lists"][i] = list(o.items)
    return st


def _restore(I, fr, objs, st):
    fr.env.clear()
    fr.env.update(st["env"])
    for i, o in objs.items():
        if isinstance(o, Arr):
            o._at, cw = st["arr"][i]
            if cw is not None:
                o.cellwrites = cw
            elif hasattr(o, "cellwrites"):
                del o.cellwrites
        elif isinstance(o, Obj):
            o.attrs = dict(st["attrs"][i])
        elif isinstance(o, ListObj):
            o.items = list(st["lists"][i])
    I.ghost = dict(st["ghost"])


def summarise(I, s, fr, key, n, at):
    paths, objs = reach(I, fr)
    L = LoopRec(key, fr, I.serial)
    L.paths, L.known, L.mode = paths, set(), "sum"
    L.prelocals = set(fr.env)
    it = I.fresh("it!s", IZ)
    st0 = _state(I, fr, objs)
    npc = len(I.pc)
    I.li.push()
    I.dcache.append({})
    I.nosplit += 1
    I.loops.append(L)
    qdepth = I.quiet
    saved_pc, saved_fa = list(I.pc), list(I.foralls)
    cnt0 = dict(I.cnt)

    def body_run(quiet):
        I.quiet = qdepth + (1 if quiet else 0)
        L.writes = []
        try:
            I.assign(s.target, at(it), fr)
            I.block(s.body, fr)
        except (ReturnEx, BreakEx, ContinueEx, PyRaise, PathEnd) as ex:
            raise NoSummary(f"control flow {type(ex).__name__}")
        finally:
            I.quiet = qdepth
        return list(L.writes)

    try:
        rng = [it >= 0, it < Z(n)]
        I.pc += rng
        I.li.add(*rng)
        targets = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        # pass 0: discover writes
        for o in objs.values():
            if isinstance(o, Arr):
                o.cellwrites = []
        w = body_run(True)
        arrs = [o for o in objs.values() if isinstance(o, Arr) and getattr(o, "cellwrites", None)]
        for a in arrs:
            if a.dtype == "bool":
                raise NoSummary("boolean array")
        cells0 = {id(a): list(a.cellwrites) for a in arrs}
        locs, attrs = [], []
        for o, what in w:
            if isinstance(o, Arr):
                continue
            if o is fr:
                if what not in targets and what not in locs:
                    locs.append(what)
            elif isinstance(o, Obj):
                if not any(x is o and y == what for x, y in attrs):
                    attrs.append((o, what))
            else:
                raise NoSummary("list write")
        _restore(I, fr, objs, st0)
        for o in arrs:
            o.cellwrites = []
        # accumulator cells: written index does not depend on the iteration
        acc = {}
        pts = {}
        regs = {}  # blocks written in every iteration, at the same place
        binders = {}  # id of an index tuple -> bound variables (var, lo, hi) of the block it describes
        for a in arrs:
            for cw in cells0[id(a)]:
                bs = []
                if cw[0] == "region":
                    _, idx, bs = cw
                    if idx is None:
                        raise NoSummary("region write")
                else:
                    idx = cw[0]
                dep = [k for k, x in enumerate(idx) if is_z(x) and contains(x, it)]
                if bs and not dep and any(is_z(x) and contains(x, it) for b in bs for x in b[1:]):
                    raise NoSummary("block changes with the iteration")
                tgt = pts if dep else regs if bs else acc
                lst = tgt.setdefault(id(a), [])
                if not any(_sameidx(I, idx, j, bs, binders.get(id(j), [])) for j in lst):
                    lst.append(idx)
                    binders[id(idx)] = bs
        if any(len(v) > 1 for v in regs.values()) or any(id(a) in regs and (id(a) in pts or id(a) in acc) for a in arrs):
            raise NoSummary("several blocks written")

        def within(idx):
            return [f for b, lo, hi in binders.get(id(idx), []) for f in (b >= Z(lo), b < Z(hi))]

        def value(a, idx):
            """final content at idx, with its bound variables in range"""
            w = within(idx)
            if not w:
                return a._at(*idx)
            I.li.push()
            I.dcache.append({})
            try:
                I.li.add(*w)
                return a._at(*idx)
            finally:
                I.li.pop()
                I.dcache.pop()

        def primed(idx):
            """index of another iteration, and the range of its bound variables"""
            sub_ = [(it, it1)] + [(b, z3.Int(f"{b}!o")) for b, _, _ in binders.get(id(idx), [])]
            return [z3.substitute(Z(x), *sub_) for x in idx], [z3.substitute(f, *sub_) for f in within(idx)]

        it1 = z3.Int("it!other")
        for o, what in attrs:
            if what not in o.attrs or not is_num(o.attrs[what]):
                raise NoSummary("attribute kind")
        for nm in locs:
            if not is_num(st0["env"][nm]):
                raise NoSummary(f"local {nm} kind")

        def symbolic_state(absarr):
            """install accumulator symbols; with absarr also opaque contents for written arrays"""
            syms = []
            for a in arrs:
                a.cellwrites = []
                if absarr:
                    f = z3.Function(f"pre!{paths[id(a)]}", *([IZ] * a.ndim + [RZ]))
                    base = (lambda f: lambda *j: f(*[Z(x) for x in j]))(f)
                else:
                    base = st0["arr"][id(a)][0]
                a._at = base
                for k, idx in enumerate(acc.get(id(a), [])):
                    y = z3.Real(f"acc!{paths[id(a)]}!{k}")
                    syms.append(y)
                    a._at = _override(a._at, idx, y)
                for idx in regs.get(id(a), []):
                    Y = z3.Function(f"accf!{paths[id(a)]}", *([IZ] * a.ndim + [RZ]))
                    fsyms.append(Y)
                    a._at = (lambda Y: lambda *j: Y(*[Z(x) for x in j]))(Y) if not absarr else a._at
            for nm in locs:
                v = st0["env"][nm]
                y = z3.Int(f"acc!{nm}") if is_intlike(v) else z3.Real(f"acc!{nm}")
                syms.append(y)
                fr.env[nm] = y
            for o, what in attrs:
                v = o.attrs[what]
                nm = f"acc!{paths[id(o)]}.{what}"
                y = z3.Int(nm) if is_intlike(v) else z3.Real(nm)
                syms.append(y)
                o.attrs[what] = y
            return syms

        fsyms = []
        # pass 1: opaque contents, dependency analysis
        syms = symbolic_state(True)
        body_run(True)
        finals, ofidx = [], []
        for a in arrs:
            for idx in acc.get(id(a), []) + pts.get(id(a), []) + regs.get(id(a), []):
                finals.append(value(a, idx))
                ofidx.append(idx)
        vals1 = finals + [fr.env[nm] for nm in locs] + [o.attrs[wh] for o, wh in attrs]
        for v in vals1:
            if not (is_num(v)):
                raise NoSummary("non-numeric update")
        byname = {f"pre!{paths[id(a)]}": a for a in arrs}
        reads = []
        for k, v in enumerate(vals1):
            if is_z(v):
                collect_reads(I, v, byname, within(ofidx[k]) if k < len(ofidx) else [], reads, set())
        sv = z3.Solver()
        sv.set("timeout", 2000)
        for f in saved_pc + rng:
            if I._intonly(f):
                sv.add(f)
        sv.add(it1 >= 0, it1 < Z(n))
        for a, ridx, ranges in reads:
            for widx in pts.get(id(a), []):
                w1, r1 = primed(widx)
                if sv.check(*ranges, *r1, it1 != it, *[Z(r) == x for r, x in zip(ridx, w1)]) != z3.unsat:
                    raise NoSummary("iterations depend on each other")
            for widx in acc.get(id(a), []):
                if sv.check(*ranges, *[Z(r) == Z(x) for r, x in zip(ridx, widx)]) != z3.unsat:
                    raise NoSummary("reads the accumulator cell")
        for a in arrs:
            ps, ac = pts.get(id(a), []), acc.get(id(a), [])
            for x, y in itertools.combinations_with_replacement(ps, 2):
                y1, r1 = primed(y)
                if sv.check(it1 != it, *r1, *within(x), *[Z(p) == q for p, q in zip(x, y1)]) != z3.unsat:
                    raise NoSummary("overlapping writes")
            for x in ps:
                for y in ac:
                    if sv.check(*within(x), *[Z(p) == Z(q) for p, q in zip(x, y)]) != z3.unsat:
                        raise NoSummary("overlapping writes")
            for x, y in itertools.combinations(ac, 2):
                if sv.check(*[Z(p) == Z(q) for p, q in zip(x, y)]) != z3.unsat:
                    raise NoSummary("overlapping writes")
        _restore(I, fr, objs, st0)
        I.cnt = dict(cnt0)
        # pass 2: real contents
        I.pc, I.foralls = saved_pc + rng, list(saved_fa)
        syms = symbolic_state(False)
        body_run(False)
        upd_cells, upd_pts, upd_loc, upd_attr, upd_regs = [], [], [], [], []
        for a in arrs:
            for idx in pts.get(id(a), []):
                upd_pts.append((a, idx, value(a, idx)))
            for idx in regs.get(id(a), []):
                upd_regs.append((a, idx, value(a, idx)))
            for k, idx in enumerate(acc.get(id(a), [])):
                y = z3.Real(f"acc!{paths[id(a)]}!{k}")
                upd_cells.append((a, idx, y, a._at(*idx)))
        for nm in locs:
            v = st0["env"][nm]
            upd_loc.append((nm, z3.Int(f"acc!{nm}") if is_intlike(v) else z3.Real(f"acc!{nm}"), fr.env[nm]))
        for o, wh in attrs:
            nm = f"acc!{paths[id(o)]}.{wh}"
            v = st0["attrs"][id(o)][wh]
            upd_attr.append((o, wh, z3.Int(nm) if is_intlike(v) else z3.Real(nm), o.attrs[wh]))

        def nosym(e):
            return not (is_z(e) and (any(contains(e, y) for y in syms) or uses(e)))

        def uses(e):
            return bool(fsyms) and any(d.eq(f) for d in all_decls(I, e) for f in fsyms)

        def final_of(sym, newv, init):
            if is_intlike(init) and is_intlike(newv):
                d = z3.simplify(Z(newv) - sym)
                if nosym(d):
                    c = numeral(d)
                    if c is not None:
                        return add(init, mul(int(c), n)) if not conc(n) or not conc(init) else init + int(c) * n
                if nosym(newv):
                    return ite(cmp(">", n, 0), z3.substitute(Z(newv), (it, Z(sub(n, 1)))), init)
                raise NoSummary("integer accumulator")
            sy = sym if sym.sort() == RZ else z3.ToReal(sym)
            atoms = {}
            p = poly(z3.simplify(R(newv)), atoms)
            lin = {m: c for m, c in p.items() if any(contains(atoms[x], sym) for x in m)}
            one = [m for m in lin if len(m) == 1 and atoms[m[0]].eq(sy)]
            if not lin:
                if is_z(newv) or conc(newv):
                    return ite(cmp(">", n, 0), I.subst(newv, it, sub(n, 1)), init)
            if len(lin) == 1 and one and lin[one[0]] == 1:
                d = 0
                for m, c in p.items():
                    if m == one[0]:
                        continue
                    t = z3.Q(c.numerator, c.denominator)
                    for x in m:
                        t = t * atoms[x]
                    d = add(d, t)
                return add(init, I.sums.close(0, n, it, d if not conc(d) else Fraction(d)))
            raise NoSummary("not an accumulator")

        new_regs = []
        for a, idx, v in upd_regs:
            Y = z3.Function(f"accf!{paths[id(a)]}", *([IZ] * a.ndim + [RZ]))
            y = Y(*[Z(x) for x in idx])
            init = st0["arr"][id(a)][0]
            atoms = {}
            p = poly(z3.simplify(R(v)), atoms)
            lin = {m: c for m, c in p.items() if any(not nosym(atoms[x]) for x in m)}
            one = [m for m in lin if len(m) == 1 and atoms[m[0]].eq(y)]
            d = 0
            for m, c in p.items():
                if m in lin:
                    continue
                t = z3.Q(c.numerator, c.denominator)
                for x in m:
                    t = t * atoms[x]
                d = add(d, t)
            if not lin:
                mode = "last"
            elif len(lin) == 1 and one and lin[one[0]] == 1:
                mode = "sum"
            else:
                raise NoSummary("not an accumulating block")
            new_regs.append((a, idx, d, mode))
        for y, v in [(y, v) for _, _, y, v in upd_cells] + [(y, v) for _, y, v in upd_loc] + [(y, v) for _, _, y, v in upd_attr]:
            if is_z(v) and uses(v):
                raise NoSummary("reads a running block")
        for _, _, v in upd_pts:
            if not nosym(v):
                raise NoSummary("value depends on a running accumulator")
        new_cells = [(a, idx, final_of(y, v, st0["arr"][id(a)][0](*idx))) for a, idx, y, v in upd_cells]
        new_loc = [(nm, final_of(y, v, st0["env"][nm])) for nm, y, v in upd_loc]
        new_attr = [(o, wh, final_of(y, v, st0["attrs"][id(o)][wh])) for o, wh, y, v in upd_attr]
        # accumulators may not read one another
        for lst, old in ((upd_cells, None),):
            pass
        allacc = [(y, v) for _, _, y, v in upd_cells] + [(y, v) for _, y, v in upd_loc] + [(y, v) for _, _, y, v in upd_attr]
        for y, v in allacc:
            for z_, _ in allacc:
                if z_ is not y and is_z(v) and contains(v, z_):
                    raise NoSummary("accumulators depend on each other")
        def solve_for(x, var, others):
            """x = sg * var + c"""
            if not (is_z(x) and contains(x, var)) or any(contains(x, o) for o in others):
                return None
            for sg in (1, -1):
                c = z3.simplify(x - var) if sg == 1 else z3.simplify(x + var)
                if not contains(c, var):
                    return sg, c
            return None

        solved = []
        for a, idx, v, mode in [(a, idx, v, "point") for a, idx, v in upd_pts] + new_regs:
            bs = binders.get(id(idx), [])
            used, plan = set(), []
            bvars = [b for b, _, _ in bs]
            for q, (var, lo, hi) in enumerate(([(it, 0, n)] if mode == "point" else []) + bs):
                known = [it] + bvars[:q - 1] if mode == "point" and q else bvars[:q] if mode != "point" else []
                others = [b for b in bvars if not b.eq(var) and not any(b.eq(t) for t in known)]
                for k, x in enumerate(idx):
                    if k in used:
                        continue
                    sc = solve_for(x, var, others)
                    if sc is not None:
                        plan.append((var, lo, hi, k, *sc))
                        used.add(k)
                        break
                else:
                    raise NoSummary("index form")
            solved.append((a, idx, v, mode, plan, used))
    finally:
        I.loops.pop()
        I.nosplit -= 1
        I.li.pop()
        I.dcache.pop()
        I.quiet = qdepth
        extra = [f for f in I.pc[len(saved_pc) + 2:] if not contains(f, it) and not any(str(c).startswith("acc!") for c in _consts(f))]
        I.pc = saved_pc + extra
        _restore(I, fr, objs, st0)
    # install the closed form
    for a, idx, v, mode, plan, used in solved:
        I.note_write(a, None)
        if hasattr(a, "cellwrites"):
            bs = [(var, lo, hi) for var, lo, hi, *_ in plan]
            a.cellwrites.append(("region", idx, bs))
        old = a._at
        if mode == "sum":
            v = I.sums.close(0, n, it, v if not conc(v) else Fraction(v))
        elif mode == "last":
            v = I.subst(v, it, sub(n, 1))

        def nat(*j, old=old, idx=idx, v=v, plan=plan, used=used, mode=mode):
            m = []
            at_ = lambda e: z3.simplify(z3.substitute(Z(e), *m)) if m else Z(e)
            cond = True
            for var, lo, hi, k, sg, c in plan:
                x = sub(j[k], at_(c)) if sg == 1 else sub(at_(c), j[k])
                x = z3.simplify(Z(x))
                cond = AND(cond, decide(cmp(">=", x, z3.simplify(at_(lo)))), decide(cmp("<", x, z3.simplify(at_(hi)))))
                if cond is False:
                    return old(*j)
                m = m + [(var, x)]
            for k, x in enumerate(idx):
                if k not in used and cond is not False:
                    cond = AND(cond, decide(cmp("==", j[k], at_(x))))
            if mode == "last":
                cond = AND(cond, decide(cmp(">", n, 0)))
            if cond is False:
                return old(*j)
            nv = v
            for var, x in m:
                nv = I.subst(nv, var, x)
            if mode == "sum":
                nv = add(old(*j), nv)
            if cond is True:
                return nv
            return ite(cond, nv, old(*j))

        a._at = nat
    for a, idx, v in new_cells:
        I.setat(a, idx, v)
    for nm, v in new_loc:
        I.setlocal(fr, nm, v)
    for o, wh, v in new_attr:
        I.setattr(o, wh, v)
    for nm in list(fr.env):
        pass
    for x in ast.walk(ast.Module(body=s.body, type_ignores=[])):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in st0["env"]:
            fr.env[x.id] = POISON
    for t in targets:
        I.setlocal(fr, t, POISON)


def _consts(e):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.arg(i) for i in range(x.num_args()))
    return out


def _override(f, idx, val):
    def at(*j):
        c = True
        for x, y in zip(idx, j):
            c = AND(c, decide(cmp("==", x, y)))
            if c is False:
                return f(*j)
        return val if c is True else ite(c, val, f(*j))
    return at


def all_decls(I, e, seen=None):
    """function symbols in e, also inside sum bodies"""
    out, st, seen = [], [e], set() if seen is None else seen
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            out.append(x.decl())
            sf = I.sums.byname.get(x.decl().name())
            if sf is not None:
                st.append(sf.body)
        st.extend(x.arg(i) for i in range(x.num_args()))
    return out


def _sameidx(I, a, b, bs=(), bs2=()):
    if len(bs) != len(bs2):
        return False
    if bs:
        ren = [(y[0], x[0]) for x, y in zip(bs, bs2)]
        b = [z3.substitute(Z(x), *ren) for x in b]
        for x, y in zip(bs, bs2):
            if not all(z3.simplify(Z(p)).eq(z3.simplify(z3.substitute(Z(q), *ren))) for p, q in zip(x[1:], y[1:])):
                return False
        return all(z3.simplify(Z(p)).eq(z3.simplify(Z(q))) for p, q in zip(a, b))
    c = AND(True, *[cmp("==", x, y) for x, y in zip(a, b)])
    return I._decide(c) is True


def collect_reads(I, e, byname, ranges, out, seen):
    """applications pre!A(idx) in e, also inside sum bodies (with the range of their bound variable)"""
    st = [e]
    while st:
        x = st.pop()
        if (x.get_id(), len(ranges)) in seen:
            continue
        seen.add((x.get_id(), len(ranges)))
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            nm = x.decl().name()
            if nm in byname:
                out.append((byname[nm], [x.arg(i) for i in range(x.num_args())], list(ranges)))
            elif nm in I.sums.byname:
                k = z3.Int(f"bk!{len(ranges)}!{x.get_id()}")
                b = I.sums.bodyat(I.sums.byname[nm], [x.arg(i) for i in range(2, x.num_args())], k)
                collect_reads(I, b, byname, ranges + [x.arg(0) <= k, k < x.arg(1)], out, set())
        st.extend(x.arg(i) for i in range(x.num_args()))


# ---------------------------------------------------------------------- invariants

def kind(v):
    if v is None:
        return "none"
    if is_boollike(v):
        return "bool"
    if isinstance(v, (Inf, Ext)):
        return "ext"
    if is_intlike(v):
        return "int"
    if is_num(v):
        return "real"
    if isinstance(v, Arr):
        return "arr"
    if isinstance(v, VCell):
        return "vcell"
    if is_z(v) and v.sort() == V:
        return "V"
    if isinstance(v, EnumMember):
        return ("enum", v.cls, v.name)
    if isinstance(v, tuple):
        return ("tuple",) + tuple(kind(x) for x in v)
    if v is POISON:
        return "poison"
    return ("obj", type(v).__name__)


def havoc(I, cur, kinds, name):
    ks = list(kinds)
    if "poison" in ks:
        return POISON
    num = [k for k in ks if k in ("int", "real", "ext")]
    if len(num) > 1:
        ks = [k for k in ks if k not in num] + ["ext" if "ext" in num else "real"]
    ks = sorted(ks, key=str)
    k = ks[I.choose(len(ks), f"kind of {name}")]
    if k == "none":
        return None
    if k == "bool":
        return I.fresh(f"h!{name}", z3.BoolSort())
    if k == "int":
        return I.fresh(f"h!{name}", IZ)
    if k == "real":
        return I.fresh(f"h!{name}", RZ)
    if k == "ext":
        return Ext(I.fresh(f"h!{name}!ninf", z3.BoolSort()), I.fresh(f"h!{name}", RZ))
    if k == "arr":
        if not isinstance(cur, Arr):
            raise Unsupported(f"{name} becomes an array in a loop")
        return I.symarr(f"h!{name}", cur.shape)
    if k == "V":
        return I.fresh(f"h!{name}", V)
    if k == "vcell":
        c = VCell(I.fresh(f"h!{name}", V))
        c.serial = I.new_serial()
        return c
    if isinstance(k, tuple) and k[0] == "enum":
        return EnumMember(k[1], k[2], None)
    if isinstance(k, tuple) and k[0] == "tuple":
        return tuple(havoc(I, cur[i] if isinstance(cur, tuple) and i < len(cur) else None, {x}, f"{name}{i}") for i, x in enumerate(k[1:]))
    raise Unsupported(f"{name} ({k}) changes in a loop")


class View:
    """what a loop specification may talk about"""

    def __init__(self, I, fr, n, it, P, targets, pre):
        self.I, self.fr, self.n, self.it, self.P, self.targets, self.pre = I, fr, n, it, P, targets, pre
        outer = [L for L in I.loops if L.mode == "inv"]
        self.outer = outer[-1].it if outer else None

    def local(self, name):
        return self.fr.env[name]

    def mod_locals(self, kinds):
        """modified locals (in-place or rebound) of the given kinds, in a stable order"""
        out = []
        held = {id(a.root()) for f in self.I.frames for o in f.env.values() if isinstance(o, Obj)
                for a in o.attrs.values() if isinstance(a, Arr)}
        for nm in self.fr.env:
            if nm in self.targets:
                continue
            v = self.fr.env[nm]
            if isinstance(v, Arr) and id(v.root()) in held:
                continue  # another name for an attribute
            if ("local", nm) in self.P["mod"] or (isinstance(v, Arr) and (nm, None) in self.P["mod"]):
                if kind(v) in kinds:
                    out.append(nm)
        return out

    def only(self, kinds):
        l = self.mod_locals(kinds)
        if len(l) != 1:
            raise SpecMismatch(f"expected one modified local of kind {kinds}, found {l}")
        return self.fr.env[l[0]]


def _locs(I, fr, objs_by_path, mod):
    """current values of the modified locations"""
    out = {}
    for k in mod:
        if k[0] == "local":
            out[k] = fr.env.get(k[1], POISON)
        elif k[0] == "ghost":
            out[k] = I.ghost.get(k[1])
        else:
            o = objs_by_path.get(k[0])
            if isinstance(o, Obj) and k[1] is not None:
                out[k] = o.attrs.get(k[1]) if k[1] in o.attrs else I.getattr(o, k[1])
    return out


class Locs(dict):
    def __missing__(self, k):
        return POISON


def expand(loc, P):
    """the components of carried tuples, as locations of their own"""
    out = Locs(loc)
    for k, v in loc.items():
        if isinstance(v, tuple) and k[0] == "local":
            for i, x in enumerate(v):
                out[("local", k[1], i)] = x
        for kd in list(P["kinds"].get(k, ())):
            if isinstance(kd, tuple) and kd[0] == "tuple":
                for i, x in enumerate(kd[1:]):
                    P["kinds"].setdefault(("local", k[1], i), set()).add(x)
    return out


def run_inv(I, s, fr, key, n, at):
    P = info(I, key)
    paths, objs = reach(I, fr)
    bypath = {}
    for i, p in paths.items():
        bypath.setdefault(p, objs[i])
    isfor = at is not None
    targets = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} if isfor else set()
    pre = {"env": dict(fr.env), "arr": {p: o._at for p, o in bypath.items() if isinstance(o, Arr)},
           "ghost": dict(I.ghost)}
    loc0 = _locs(I, fr, bypath, P["mod"])
    for k, v in loc0.items():
        P["kinds"].setdefault(k, set()).add(kind(v))
    loc0 = expand(loc0, P)
    view0 = View(I, fr, n, 0, P, targets, pre)
    spec = pick_spec(I, key, P, view0)
    autos = auto_candidates(I, P, loc0, isfor) if P.get("probed") else []
    if P.get("probed") and hasattr(I, "extra_autos"):
        for cid, fn in I.extra_autos(view0):
            if cid in P["drop"]:
                continue
            try:
                g = fn(view0, loc0)
            except SpecMismatch:
                continue
            if I.recording() and not I.quick(g, 1.5, True):
                P["drop"].add(cid)
                continue
            autos.append((cid, fn))
            if not isinstance(g, bool):
                I.prove(f"loop invariant holds on entry: {cid}", g, kind="inv")

    def invs(view):
        return list(spec.inv(view)) if spec is not None else []

    for nm, f in invs(view0):
        I.prove(f"loop invariant holds on entry: {nm}", f, kind="inv")
    c = I.choose(2, "loop") if isfor else 0
    # havoc
    for k in sorted(P["mod"], key=lambda k: (k[1] is None and k[0] != "local", str(k))):
        if k[0] == "local":
            fr.env[k[1]] = havoc(I, fr.env.get(k[1]), P["kinds"].get(k, {"poison"}), k[1])
        elif k[0] == "ghost":
            I.ghost[k[1]] = havoc(I, I.ghost.get(k[1]), P["kinds"].get(k, set()), "g_" + k[1])
        else:
            o = bypath.get(k[0])
            if o is None:
                raise Unsupported(f"lost location {k[0]}")
            if isinstance(o, VCell) and not any(o is x for x in reach(I, fr)[1].values()):
                continue  # replaced by an arbitrary one already
            if isinstance(o, Arr):
                f = I.freshfn("h!" + k[0].replace(" ", ""), o.ndim, z3.BoolSort() if o.dtype == "bool" else RZ)
                o._at = (lambda f: lambda *j: f(*[Z(x) for x in j]))(f)
            elif isinstance(o, VCell):
                o.content = I.fresh("h!" + k[0], V)
            elif isinstance(o, Obj):
                cur = o.attrs.get(k[1])
                o.attrs[k[1]] = havoc(I, cur, P["kinds"].get(k, set()), f"{k[0]}.{k[1]}")
            else:
                raise Unsupported("list modified in a loop")
    for t in targets:
        fr.env[t] = POISON
    it = n if (isfor and c == 1) else I.fresh("it", IZ)
    if isfor:
        if c == 0:
            I.assume(cmp(">=", it, 0))
            I.assume(cmp("<", it, n))
    else:
        I.assume(cmp(">=", it, 0))
    view = View(I, fr, n, it, P, targets, pre)
    for cid, fn in autos:
        I.assume(fn(view, expand(_locs(I, fr, bypath, P["mod"]), P)))
    for nm, f in invs(view):
        I.assume(f)
    if isfor and c == 1:
        I.block(s.orelse, fr)
        return
    start = expand(_locs(I, fr, bypath, P["mod"]), P)
    L = LoopRec(key, fr, I.serial)
    L.paths, L.known, L.mode = {**paths, **reach(I, fr)[0]}, P["mod"], "inv"
    L.prelocals = set(pre["env"]) - targets
    L.it = it
    for p, o in bypath.items():
        pass
    I.loops.append(L)
    try:
        if isfor:
            x = at(it)
            I.assign(s.target, x, fr)
        else:
            t = I.branch(I.truth(I.eval(s.test, fr)))
            if not t:
                I.loops.remove(L)
                I.block(s.orelse, fr)
                return
        try:
            I.block(s.body, fr)
        except ContinueEx:
            pass
    except BreakEx:
        if L in I.loops:
            I.loops.remove(L)
        return
    finally:
        if L in I.loops:
            I.loops.remove(L)
    # back edge
    loc1 = _locs(I, fr, bypath, P["mod"])
    alias = set()
    for k, v in loc1.items():
        kd = kind(v)
        if kd not in P["kinds"].setdefault(k, set()):
            P["kinds"][k].add(kd)
            raise Restart
        if isinstance(v, Arr) and v.root().serial <= L.serial and k[0] == "local" and v is not view.fr.env.get(k[1]):
            raise Unsupported("array alias carried around a loop")
    loc1 = expand(loc1, P)
    for k, v in loc1.items():
        if isinstance(v, VCell) and v.serial <= L.serial and v is not start.get(k):
            alias.add(k)
    nview = View(I, fr, n, add(it, 1), P, targets, pre)
    for cid, fn in autos:
        g = fn(nview, loc1)
        if any(cid.startswith(f"{k} holds") for k in alias):
            g = False  # an older vector carried around the loop is not private
        if I.recording() and not I.quick(g, 1.5, True):
            P["drop"].add(cid)
            raise Restart
        I.prove(f"loop invariant is preserved: {cid}", g, kind="inv", assume=False)
    if P.get("spec") is not None and (P.get("others") or P["bad"]) and I.recording() and not P.get("kept"):
        if all(I.quick(f, 3.0, True) for _, f in invs(nview)):
            P["kept"] = True
        else:
            P["bad"].add(P["spec"])
            P["spec"] = None
            if not P["others"]:
                P["bad"].clear()  # none is inductive: the first one stands, and its obligations fail by name
                P["kept"] = True
            raise Restart
    for nm, f in invs(nview):
        I.prove(f"loop invariant is preserved: {nm}", f, kind="inv", assume=False)
    raise PathEnd


def pick_spec(I, key, P, view0):
    """First exploration ("probe") discovers what each loop modifies; specifications are matched afterwards."""
    if not P.get("probed"):
        I.unprobed = True
        return None
    pool = getattr(I, "loop_specs", [])
    if P["spec"] is not None:
        return pool[P["spec"]]
    if not pool:
        return None
    used = {p["spec"] for p in I.persist.values() if p.get("spec") is not None}
    used |= {i for i in range(len(pool)) for u in used if getattr(pool[i], "group", i) == getattr(pool[u], "group", u)}
    bad = P.setdefault("bad", set())
    cands = [i for i in range(len(pool)) if i not in used or getattr(pool[i], "shared", False)]
    ok, why = [], []
    for i in cands:
        try:
            pool[i].inv(view0)
            ok.append(i)
        except SpecMismatch as ex:
            why.append(str(ex))
    if not ok:
        raise Unsupported(f"no invariant fits the loop at {key[0]}:{key[1]} ({'; '.join(why)})")
    for i in ok:
        if i not in bad and all(I.quick(f, 2.0) for _, f in pool[i].inv(view0)):
            P["spec"] = i
            # other forms of the same loop (row- or column-wise) that could be tried instead
            P["others"] = [j for j in ok if j != i and j not in bad and hasattr(pool[i], "group")
                           and getattr(pool[j], "group", None) == pool[i].group]
            return pool[i]
    P["spec"], P["others"] = ok[0], []
    return pool[ok[0]]


def auto_candidates(I, P, loc0, isfor):
    out = []
    ghosts = {k: v for k, v in loc0.items() if k[0] == "ghost"}
    others = {k: v for k, v in loc0.items() if k[0] != "ghost"}
    for k in P["kinds"]:
        if len(k) == 3 and k not in others:
            others[k] = POISON  # component of a tuple that appears later

    def eq(a, b):
        if is_num(a) and is_num(b):
            return cmp("==", a, b)
        if is_z(a) and is_z(b) and a.sort() == b.sort():
            return a == b
        return True

    def addc(cid, fn):
        if cid not in P["drop"]:
            out.append((cid, fn))

    for k, v in loc0.items():
        if isinstance(v, bool):
            addc(f"{k} is {v}", (lambda k, v: lambda w, l: (Z(l[k]) == z3.BoolVal(v)) if is_boollike(l[k]) else False)(k, v))
    for k, v in ghosts.items():
        if k[1] in getattr(I, "bounds", {}):
            addc(f"{k} is within its bound", (lambda k, b: lambda w, l: z3.And(Z(l[k]) >= 0, Z(l[k]) <= Z(b)))(k, I.bounds[k[1]]))
    for k, v in others.items():
        if len(P["kinds"].get(k, ())) > 1 and "none" in P["kinds"][k]:
            for g, gv in ghosts.items():
                if isinstance(gv, bool):
                    addc(f"{k} is None tracks {g}", (lambda k, g, same: lambda w, l: Z(l[g]) == z3.BoolVal((l[k] is None) == same))(k, g, gv == (v is None)))
            for g, gv in ghosts.items():
                if is_num(gv) or kind(gv) == "V":
                    addc(f"while {k} is None, {g} is as at the start", (lambda k, g, gv: lambda w, l: eq(l[g], gv) if l[k] is None else True)(k, g, gv))
        if not is_num(v) and P["kinds"].get(k, set()) & {"int", "real"}:
            for g, gv in ghosts.items():
                if is_num(gv):
                    addc(f"{k} equals {g} once it is a number", (lambda k, g: lambda w, l: eq(l[k], l[g]))(k, g))
        if "vcell" in P["kinds"].get(k, ()):
            for g, gv in ghosts.items():
                if kind(gv) == "V":
                    addc(f"{k} holds {g}", (lambda k, g: lambda w, l: l[k].content == l[g] if isinstance(l[k], VCell) else True)(k, g))
    for k, v in list(others.items()) + list(ghosts.items()):
        if isfor and is_intlike(v):
            addc(f"{k} - it is constant", (lambda k, v: lambda w, l: cmp("==", sub(l[k], w.it), v) if is_intlike(l[k]) else True)(k, v))
    for k, v in others.items():
        for g, gv in ghosts.items():
            if is_num(v) and is_num(gv):
                d = sub(v, gv)
                d = d if conc(d) else z3.simplify(d)
                c = d if conc(d) else numeral(d)
                if c is not None:
                    addc(f"{k} - {g} is constant", (lambda k, g, c: lambda w, l: cmp("==", sub(l[k], l[g]), c if not isinstance(c, Fraction) or c.denominator != 1 or not is_intlike(l[k]) else int(c))
                         if is_num(l[k]) and is_num(l[g]) else True)(k, g, c))
            if is_boollike(v) and is_boollike(gv) and isinstance(v, bool) and isinstance(gv, bool):
                if v == gv:
                    addc(f"{k} == {g}", (lambda k, g: lambda w, l: Z(l[k]) == Z(l[g]) if is_boollike(l[k]) and is_boollike(l[g]) else True)(k, g))
                else:
                    addc(f"{k} != {g}", (lambda k, g: lambda w, l: Z(l[k]) != Z(l[g]) if is_boollike(l[k]) and is_boollike(l[g]) else True)(k, g))
    return out
