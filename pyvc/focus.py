"""Goal-directed proof attempt: integer conditions are decided by a linear solver (splitting cases where they are not),
integer arguments are replaced by representatives, quantified facts are instantiated from the goal outwards, and the
remaining, almost quantifier- and function-free real problem goes to z3 and nlsat."""
import itertools
import time

import z3

from .solve import apps, is_uf, relax, triggers_of, to_smt
from .sums import IZ, RZ, children, numeral

MAXLEAVES = 48


class GiveUp(Exception):
    pass


def int_only(f, memo):
    k = f.get_id()
    if k in memo:
        return memo[k][0]
    r = True
    if f.sort() == RZ or not z3.is_app(f):
        r = False
    else:
        r = all(int_only(c, memo) for c in children(f))
    memo[k] = (r, f)
    return r


class Ctx:
    def __init__(self, sums, deadline):
        self.sums, self.deadline = sums, deadline
        self.li = z3.Solver()
        self.li.set("timeout", 300)
        self.level = [({}, {}, [])]  # per level: decided atoms, simplified terms, representatives
        self.im = {}
        self.keep = []
        self.facts = []

    def push(self, f):
        self.facts.append(f)
        self.li.push()
        self.li.add(f)
        self.level.append(({}, {}, []))

    def pop(self):
        self.li.pop()
        self.level.pop()
        self.facts.pop()

    def decide(self, c):
        d = self.level[-1][0]
        k = c.get_id()
        if k in d:
            return d[k]
        if time.time() > self.deadline:
            raise GiveUp
        self.keep.append(c)
        r = None
        if z3.is_true(c):
            r = True
        elif z3.is_false(c):
            r = False
        elif self.li.check(z3.Not(c)) == z3.unsat:
            r = True
        elif self.li.check(c) == z3.unsat:
            r = False
        d[k] = r
        return r

    def rep(self, t):
        """representative of an integer term"""
        t = z3.simplify(t)
        if numeral(t) is not None:
            return t
        reps = self.level[-1][2]
        for r, tk in reps:
            if tk == t.get_id():
                return r
        for r, tk in reps:
            if self.decide(t == r) is True:
                self.keep.append(t)
                reps.append((r, t.get_id()))
                return r
        for c in (0, 1):
            if self.decide(t == c) is True:
                r = z3.IntVal(c)
                reps.append((r, t.get_id()))
                self.keep.append(t)
                return r
        reps.append((t, t.get_id()))
        self.keep.append(t)
        return t

    def simp(self, e):
        m = self.level[-1][1]
        k = e.get_id()
        if k in m:
            return m[k]
        r = self._simp(e)
        self.keep.append(e)
        self.keep.append(r)
        m[k] = r
        return r

    def _simp(self, e):
        if not z3.is_app(e):
            return e
        ch = children(e)
        if e.sort() == z3.BoolSort() and ch and int_only(e, self.im) and any(c.sort() == IZ for c in ch):
            d = self.decide(e)
            if d is not None:
                return z3.BoolVal(d)
        if not ch:
            if e.sort() == z3.BoolSort():
                d = self.decide(e)
                if d is not None:
                    return z3.BoolVal(d)
            return e
        kd = e.decl().kind()
        if kd == z3.Z3_OP_ITE:
            c = self.simp(ch[0])
            if z3.is_true(c):
                return self.simp(ch[1])
            if z3.is_false(c):
                return self.simp(ch[2])
            return z3.If(c, self.simp(ch[1]), self.simp(ch[2]))
        if kd == z3.Z3_OP_AND:
            out = []
            for c in ch:
                s = self.simp(c)
                if z3.is_false(s):
                    return s
                if not z3.is_true(s):
                    out.append(s)
            return z3.BoolVal(True) if not out else out[0] if len(out) == 1 else z3.And(*out)
        if kd == z3.Z3_OP_OR:
            out = []
            for c in ch:
                s = self.simp(c)
                if z3.is_true(s):
                    return s
                if not z3.is_false(s):
                    out.append(s)
            return z3.BoolVal(False) if not out else out[0] if len(out) == 1 else z3.Or(*out)
        if kd == z3.Z3_OP_IMPLIES:
            a = self.simp(ch[0])
            if z3.is_false(a):
                return z3.BoolVal(True)
            b = self.simp(ch[1])
            if z3.is_true(a) or z3.is_true(b):
                return b
            return z3.Implies(a, b)
        if kd == z3.Z3_OP_NOT:
            s = self.simp(ch[0])
            if z3.is_true(s):
                return z3.BoolVal(False)
            if z3.is_false(s):
                return z3.BoolVal(True)
            return z3.Not(s)
        if is_uf(e):
            args = [self.rep(self.simp(c)) if c.sort() == IZ else self.simp(c) for c in ch]
            return e.decl()(*args)
        new = [self.simp(c) for c in ch]
        if all(a.eq(b) for a, b in zip(new, ch)):
            return e
        if kd == z3.Z3_OP_EQ:
            return new[0] == new[1]
        return e.decl()(*new)

    def undecided(self, e):
        """an int-only atom without truth value, innermost conditions first"""
        seen, st = set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.sort() == z3.BoolSort() and int_only(x, self.im):
                if z3.is_true(x) or z3.is_false(x):
                    continue
                if x.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
                    st.extend(children(x))
                    continue
                if self.decide(x) is None:
                    return x
                continue
            st.extend(children(x))
        return None


def prove(sums, hyps, foralls, goal, budget=15.0, rounds=4):
    """True if proved, with the back end used"""
    ctx = Ctx(sums, time.time() + budget)
    rest = []
    for h in hyps:
        if int_only(h, ctx.im):
            ctx.li.add(h)
            ctx.facts.append(h)
        else:
            rest.append(h)
    stats = {"leaves": 0, "by": set()}
    try:
        ok = _split(ctx, rest, foralls, goal, rounds, stats, 2)
    except GiveUp:
        return False, ""
    return ok, "z3-focus" + ("+nlsat" if "nl" in stats["by"] else "")


def _split(ctx, hyps, foralls, goal, rounds, stats, depth):
    # strip implications whose guard is integer-only
    g = ctx.simp(goal)
    pushes = 0
    try:
        while z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES and int_only(g.arg(0), ctx.im):
            ctx.push(g.arg(0))
            pushes += 1
            g = ctx.simp(g.arg(1))
        if ctx.li.check() == z3.unsat:
            return True
        if z3.is_true(g):
            return True
        c = ctx.undecided(g)
        if c is not None:
            if stats["leaves"] > MAXLEAVES:
                raise GiveUp
            for f in (c, z3.Not(c)):
                ctx.push(f)
                try:
                    if not _split(ctx, hyps, foralls, g, rounds, stats, depth):
                        return False
                finally:
                    ctx.pop()
            return True
        stats["leaves"] += 1
        return _leaf(ctx, hyps, foralls, g, rounds, stats, depth)
    finally:
        for _ in range(pushes):
            ctx.pop()


def _leaf(ctx, hyps, foralls, g, rounds, stats, depth):
    hs = []
    for h in hyps:
        s = ctx.simp(h)
        if z3.is_false(s):
            return True
        if not z3.is_true(s):
            hs.append(s)
    done, lem = set(), []
    keys = set()

    def addl(f):
        s = ctx.simp(f)
        if z3.is_true(s):
            return False
        k = s.get_id()
        if k in keys:
            return False
        keys.add(k)
        ctx.keep.append(s)
        lem.append(s)
        return True

    wide = False
    for r in range(rounds):
        if try_now(ctx, hs, lem, g, stats, 0.5 if r else 0.2, r > 0):
            return True
        ap = apps([g] + (hs if wide else []) + lem)
        byd = {}
        for a in ap:
            byd.setdefault(a.decl().name(), []).append(a)
        new = False
        for fi, fa in enumerate(foralls):
            tr = triggers_of(fa)
            binds = []
            if getattr(fa, "full", True):
                for decl, cov in tr:
                    for a in byd.get(decl.name(), []):
                        if a.decl().arity() != decl.arity():
                            continue
                        b = [None] * len(fa.vars)
                        for vi, (pos, c) in cov.items():
                            b[vi] = z3.simplify(a.arg(pos) - c) if c else a.arg(pos)
                        binds.append(b)
            else:
                per = [dict() for _ in fa.vars]
                for decl, cov in tr:
                    for a in byd.get(decl.name(), []):
                        for vi, (pos, c) in cov.items():
                            t = z3.simplify(a.arg(pos) - c) if c else a.arg(pos)
                            per[vi][t.get_id()] = t
                binds = [list(x) for x in itertools.islice(itertools.product(*[list(p.values()) for p in per]), 64)]
            for b in binds:
                b = [ctx.rep(x) if x.sort() == IZ else x for x in b]
                k = (fi,) + tuple(x.get_id() for x in b)
                if k in done:
                    continue
                done.add(k)
                ctx.keep.append(b)
                new |= addl(z3.substitute(fa.body, *[(v, t) for v, t in zip(fa.vars, b)]))
        new |= sum_lemmas(ctx, [a for a in ap if a.decl().name() in ctx.sums.byname], hyps, foralls, done, addl, stats, depth)
        if not new and wide:
            break
        wide = wide or r >= 1 or not new
        if len(lem) > 1500:
            break
    return try_now(ctx, hs, lem, g, stats, 3.0, True)


def sum_lemmas(ctx, ap, hyps, foralls, done, addl, stats, depth):
    S = ctx.sums
    at = list({a.get_id(): a for a in ap}.values())[:40]
    new = False
    for a in at:
        k = ("e", a.get_id())
        if k in done:
            continue
        done.add(k)
        ctx.keep.append(a)
        sf = S.byname[a.decl().name()]
        lo, hi, ps = a.arg(0), a.arg(1), children(a)[2:]
        if sf.square:
            new |= addl(a >= 0)
        if ctx.decide(hi <= lo) is True:
            new |= addl(a == 0)
        elif ctx.decide(hi == lo + 1) is True:
            new |= addl(a == S.bodyat(sf, ps, lo))
        elif ctx.decide(hi > lo) is not True:
            new |= addl(z3.Implies(hi <= lo, a == 0))
    for x, y in itertools.combinations(at, 2):
        k = ("c", x.get_id(), y.get_id())
        if k in done:
            continue
        done.add(k)
        fx, fy = S.byname[x.decl().name()], S.byname[y.decl().name()]
        lx, hx, px = x.arg(0), x.arg(1), children(x)[2:]
        ly, hy, py = y.arg(0), y.arg(1), children(y)[2:]
        samep = x.decl().eq(y.decl()) and all(ctx.decide(a == b) is True for a, b in zip(px, py))
        el, eh = ctx.decide(lx == ly), ctx.decide(hx == hy)
        if samep:
            if el is True:
                if ctx.decide(z3.And(hy == hx + 1, hx >= lx)) is True:
                    new |= addl(y == x + S.bodyat(fx, px, hx))
                if ctx.decide(z3.And(hx == hy + 1, hy >= ly)) is True:
                    new |= addl(x == y + S.bodyat(fy, py, hy))
            if eh is True:
                if ctx.decide(z3.And(ly == lx + 1, lx < hx)) is True:
                    new |= addl(x == y + S.bodyat(fx, px, lx))
                if ctx.decide(z3.And(lx == ly + 1, ly < hy)) is True:
                    new |= addl(y == x + S.bodyat(fy, py, ly))
        if el is True and eh is True and depth > 0:
            sk = z3.Int(f"sk!{x.get_id()}!{y.get_id()}")
            bx, by = S.bodyat(fx, px, sk), S.bodyat(fy, py, sk)
            ctx.push(z3.And(lx <= sk, sk < hx))
            try:
                old = ctx.deadline
                ctx.deadline = min(old, time.time() + 2.0)
                try:
                    ok = _split(ctx, hyps, foralls, bx == by, 2, stats, 0)
                except GiveUp:
                    if time.time() > old:
                        raise
                    ok = False
                ctx.deadline = old
            finally:
                ctx.pop()
            if ok:
                new |= addl(x == y)
    return new


def try_now(ctx, hs, lem, g, stats, tmo, nl):
    left = ctx.deadline - time.time()
    if left <= 0:
        raise GiveUp
    fs = ctx.facts + hs + lem + [z3.Not(g)]
    s = z3.Solver()
    s.set("timeout", int(min(tmo, left) * 1000))
    s.add(*fs)
    r = s.check()
    if r == z3.unsat:
        stats["by"].add("z3")
        return True
    if nl and r == z3.unknown or (nl and tmo > 2):
        # unit equalities of uninterpreted terms are substituted by solve-eqs
        rel = relax(fs)
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "simplify", "qfnra-nlsat").solver()
        s.set("timeout", int(min(tmo * 2, left) * 1000))
        s.add(*rel)
        try:
            if s.check() == z3.unsat:
                stats["by"].add("nl")
                return True
        except z3.Z3Exception:
            pass
    return False
