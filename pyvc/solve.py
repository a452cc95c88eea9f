"""Turns obligations (path hypotheses, quantified facts, goal) into quantifier-free SMT queries and discharges them."""
import itertools
import multiprocessing as mp
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from .sums import children, numeral, contains, IZ, RZ


class Forall:
    """forall vars. body  (vars: z3 Int constants); used as an instantiable hypothesis"""

    def __init__(self, vars, body, triggers=None, note=""):
        self.vars, self.body, self.triggers, self.note = vars, body, triggers, note


def is_uf(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0


def walk(e, seen, out):
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_uf(x):
            out.append(x)
        st.extend(children(x))


def apps(es):
    seen, out = set(), []
    for e in es:
        walk(e, seen, out)
    return out


def offset(pat, v):
    """pat == v + c for a numeral c -> c, else None"""
    d = z3.simplify(pat - v)
    n = numeral(d)
    return None if n is None else int(n)


def triggers_of(fa):
    if fa.triggers is not None:
        return fa.triggers
    cands = []
    for a in apps([fa.body]):
        cov = {}
        for pos, arg in enumerate(children(a)):
            if arg.sort() != IZ:
                continue
            for vi, v in enumerate(fa.vars):
                if vi not in cov and contains(arg, v) and not any(contains(arg, w) for w in fa.vars if not w.eq(v)):
                    c = offset(arg, v)
                    if c is not None:
                        cov[vi] = (pos, c)
        if cov:
            cands.append((a.decl(), cov))
    full = [c for c in cands if len(c[1]) == len(fa.vars)]
    fa.triggers = full if full else cands
    fa.full = bool(full)
    return fa.triggers


class Prep:
    """quantifier-free closure of one obligation"""

    def __init__(self, sums, extra_axioms=(), max_inst=4000):
        self.sums, self.max_inst = sums, max_inst

    def close(self, hyps, foralls, goal, rounds=3, all_triggers=True, terms=()):
        fs = [z3.Not(goal)] + list(hyps)
        base = fs if all_triggers else [z3.Not(goal)]
        done = set()
        lem = []
        seen_apps = {}
        for r in range(rounds):
            src = base + lem
            ap = apps(src)
            new = []
            byd = {}
            for a in ap:
                byd.setdefault(a.decl().name(), []).append(a)
            for fi, fa in enumerate(foralls):
                tr = triggers_of(fa)
                if getattr(fa, "full", True):
                    for decl, cov in tr:
                        for a in byd.get(decl.name(), []):
                            if a.decl().arity() != decl.arity():
                                continue
                            b = [None] * len(fa.vars)
                            for vi, (pos, c) in cov.items():
                                b[vi] = z3.simplify(a.arg(pos) - c) if c else a.arg(pos)
                            self._inst(fi, fa, b, done, new)
                else:
                    per = [dict() for _ in fa.vars]
                    for decl, cov in tr:
                        for a in byd.get(decl.name(), []):
                            for vi, (pos, c) in cov.items():
                                t = z3.simplify(a.arg(pos) - c) if c else a.arg(pos)
                                per[vi][t.get_id()] = t
                    for combo in itertools.islice(itertools.product(*[list(p.values()) for p in per]), 200):
                        self._inst(fi, fa, list(combo), done, new)
            new += self._sum_lemmas(ap, done)
            if not new:
                break
            lem += new
            if len(lem) > self.max_inst:
                break
        return fs, lem

    def _inst(self, fi, fa, b, done, new):
        key = ("f", fi) + tuple(x.get_id() for x in b)
        if key in done:
            return
        done.add(key)
        self._keep = getattr(self, "_keep", [])
        self._keep.append(b)
        new.append(z3.substitute(fa.body, *[(v, t) for v, t in zip(fa.vars, b)]))

    def _sum_lemmas(self, ap, done):
        S = self.sums
        at = [a for a in ap if a.decl().name() in S.byname]
        at = list({a.get_id(): a for a in at}.values())
        out = []
        if len(at) > 60:
            at = at[:60]
        for a in at:
            sf = S.byname[a.decl().name()]
            lo, hi, ps = a.arg(0), a.arg(1), children(a)[2:]
            k = ("e", a.get_id())
            if k not in done:
                done.add(k)
                out.append(z3.Implies(hi <= lo, a == 0))
                out.append(z3.Implies(hi == lo + 1, a == S.bodyat(sf, ps, lo)))
        for x, y in itertools.combinations(at, 2):
            k = ("c", x.get_id(), y.get_id())
            if k in done:
                continue
            done.add(k)
            fx, fy = S.byname[x.decl().name()], S.byname[y.decl().name()]
            lx, hx, px = x.arg(0), x.arg(1), children(x)[2:]
            ly, hy, py = y.arg(0), y.arg(1), children(y)[2:]
            sk = z3.Int(f"sk!{x.get_id()}!{y.get_id()}")
            bx, by = S.bodyat(fx, px, sk), S.bodyat(fy, py, sk)
            if x.decl().eq(y.decl()):
                same = z3.And(*[a == b for a, b in zip(px, py)]) if px else z3.BoolVal(True)
                out.append(z3.Implies(z3.And(same, lx == ly, hy == hx + 1, hx >= lx), y == x + S.bodyat(fx, px, hx)))
                out.append(z3.Implies(z3.And(same, lx == ly, hx == hy + 1, hy >= ly), x == y + S.bodyat(fy, py, hy)))
                out.append(z3.Implies(z3.And(same, hx == hy, ly == lx + 1, lx < hx), x == y + S.bodyat(fx, px, lx)))
                out.append(z3.Implies(z3.And(same, hx == hy, lx == ly + 1, ly < hy), y == x + S.bodyat(fy, py, ly)))
            d1, d2 = z3.simplify(hx - hy), z3.simplify(lx - ly)
            n1, n2 = numeral(d1), numeral(d2)
            if (n1 is not None and n1 != 0) or (n2 is not None and n2 != 0):
                continue
            out.append(z3.Or(lx != ly, hx != hy, z3.And(lx <= sk, sk < hx, bx != by), x == y))
        return out


# ---------------------------------------------------------------- relaxation to pure real arithmetic for nlsat

class NotArith(Exception):
    pass


def relax(fs):
    """Integers become reals, uninterpreted applications and other non-arithmetic terms become fresh reals.
    Sound for proving (more models).  Formulas that cannot be expressed are dropped (hypotheses) by the caller."""
    names, cnt = {}, [0]
    conv = {}
    keep = []

    def var(e):
        k = e.get_id()
        if k not in names:
            cnt[0] += 1
            keep.append(e)
            names[k] = z3.Real(f"x!{cnt[0]}") if e.sort() != z3.BoolSort() else z3.Bool(f"p!{cnt[0]}")
        return names[k]

    side = []

    def go(e):
        k = e.get_id()
        if k in conv:
            return conv[k]
        r = go1(e)
        conv[k] = r
        keep.append(e)
        return r

    def go1(e):
        n = numeral(e)
        if n is not None:
            return z3.Q(n.numerator, n.denominator)
        if not z3.is_app(e):
            raise NotArith
        kd = e.decl().kind()
        ch = children(e)
        if kd == z3.Z3_OP_ADD:
            return z3.Sum([go(c) for c in ch])
        if kd == z3.Z3_OP_MUL:
            return z3.Product([go(c) for c in ch])
        if kd == z3.Z3_OP_SUB:
            r = go(ch[0])
            for c in ch[1:]:
                r = r - go(c)
            return r
        if kd == z3.Z3_OP_UMINUS:
            return -go(ch[0])
        if kd == z3.Z3_OP_DIV:
            num, den = go(ch[0]), go(ch[1])
            d = numeral(ch[1])
            if d:
                return num / den
            q = var(e)
            # q*den = num is only known when den != 0
            side.append(z3.Or(den == 0, q * den == num))
            return q
        if kd == z3.Z3_OP_TO_REAL:
            return go(ch[0])
        if kd == z3.Z3_OP_ITE:
            c = go(ch[0])
            a, b = go(ch[1]), go(ch[2])
            if e.sort() == z3.BoolSort():
                return z3.If(c, a, b)
            v = var(e)
            side.append(z3.If(c, v == a, v == b))
            return v
        if kd == z3.Z3_OP_LE:
            return go(ch[0]) <= go(ch[1])
        if kd == z3.Z3_OP_LT:
            if ch[0].sort() == IZ:
                return go(ch[0]) + 1 <= go(ch[1])
            return go(ch[0]) < go(ch[1])
        if kd == z3.Z3_OP_GE:
            return go(ch[0]) >= go(ch[1])
        if kd == z3.Z3_OP_GT:
            if ch[0].sort() == IZ:
                return go(ch[0]) >= go(ch[1]) + 1
            return go(ch[0]) > go(ch[1])
        if kd == z3.Z3_OP_EQ:
            if ch[0].sort() in (IZ, RZ, z3.BoolSort()):
                return go(ch[0]) == go(ch[1])
            raise NotArith
        if kd == z3.Z3_OP_DISTINCT and ch[0].sort() in (IZ, RZ):
            return z3.And(*[go(a) != go(b) for a, b in itertools.combinations(ch, 2)])
        if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            xs = [go(c) for c in ch]
            return z3.And(*xs) if kd == z3.Z3_OP_AND else z3.Or(*xs)
        if kd == z3.Z3_OP_NOT:
            return z3.Not(go(ch[0]))
        if kd == z3.Z3_OP_IMPLIES:
            return z3.Implies(go(ch[0]), go(ch[1]))
        if kd == z3.Z3_OP_TRUE:
            return z3.BoolVal(True)
        if kd == z3.Z3_OP_FALSE:
            return z3.BoolVal(False)
        if e.sort() in (IZ, RZ, z3.BoolSort()):
            return var(e)
        raise NotArith

    out = []
    for f in fs:
        try:
            out.append(go(f))
        except NotArith:
            pass
    return out + side


def _check(s, tmo):
    s.set("timeout", int(tmo * 1000))
    try:
        return s.check()
    except z3.Z3Exception:
        return z3.unknown


def _model(s):
    out = {}
    try:
        m = s.model()
        for d in m.decls():
            v = m[d]
            if d.arity() == 0:
                try:
                    if z3.is_algebraic_value(v):
                        v = v.approx(20)
                    n = numeral(v)
                    out[d.name()] = float(n) if n is not None else str(v)
                except Exception:
                    out[d.name()] = str(v)
            else:
                out[d.name()] = str(v)[:300]
    except Exception:
        pass
    return out


def solve_one(job):
    """job: (id, smt2 of full query, smt2 of light query or None, budget) -> (id, verdict, backend, time, model)"""
    oid, full, light, budget = job
    t0 = time.time()
    model = {}
    verdict, backend = "unknown", ""

    def nl(smt, tmo, tag):
        fs = list(z3.parse_smt2_string(smt))
        rel = relax(fs)
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "qfnra-nlsat").solver()
        s.add(*rel)
        r = _check(s, tmo)
        return r, s, f"z3-nlsat{tag}"

    def df(smt, tmo, tag, seed=0):
        s = z3.Solver()
        if seed:
            s.set("random_seed", seed)
        s.add(*z3.parse_smt2_string(smt))
        r = _check(s, tmo)
        return r, s, f"z3{tag}"

    def cv(smt, tmo):
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write("(set-logic ALL)\n" + smt + "\n(check-sat)\n")
                p = f.name
            r = subprocess.run(["cvc5", f"--tlimit={int(tmo * 1000)}", p], capture_output=True, text=True, timeout=tmo + 5)
            os.unlink(p)
            o = r.stdout.strip().split("\n")[0]
            return {"unsat": z3.unsat, "sat": z3.sat}.get(o, z3.unknown)
        except Exception:
            return z3.unknown

    plan = [lambda: df(light, 1.0, ""), lambda: nl(light, 3.0, ""),
            lambda: df(full, 4.0, ""), lambda: nl(full, 10.0, ""),
            lambda: df(full, budget, "", 7)]
    cand = None
    for step in plan:
        try:
            r, s, b = step()
        except Exception as ex:  # a crash of one back end is not an answer
            continue
        if r == z3.unsat:
            return oid, "proved", b, time.time() - t0, {}
        if r == z3.sat and b == "z3" and step in plan[2:]:
            # full query satisfiable: genuine only up to uninterpreted abstraction and instantiation
            return oid, "refuted", b, time.time() - t0, _model(s)
        if r == z3.sat and cand is None:
            cand = _model(s)
    if cv(full, budget) == z3.unsat:
        return oid, "proved", "cvc5", time.time() - t0, {}
    return oid, "unknown", "", time.time() - t0, cand or {}


def to_smt(fs):
    s = z3.Solver()
    s.add(*fs)
    return s.sexpr()


_JOBS = []


def _work(i):
    sums, obls, budget, slow = _JOBS[0]
    o = obls[i]
    t0 = time.time()
    try:
        goal = o.goal if not isinstance(o.goal, bool) else z3.BoolVal(o.goal)
        s = z3.Solver()
        s.add(z3.Not(goal), *o.hyps)
        if _check(s, 0.3 * slow) == z3.unsat:
            return i, "proved", "z3", time.time() - t0, {}
        from . import focus
        ok, by = focus.prove(sums, o.hyps, o.foralls, goal, budget=15.0 * slow)
        if ok:
            return i, "proved", by, time.time() - t0, {}
        fs, lem = Prep(sums).close(list(o.hyps), o.foralls, goal, rounds=o.rounds)
        full = to_smt(fs + lem)
        light = to_smt(fs) if lem else full
        r = solve_one((i, full, light, budget))
    except Exception as ex:
        return i, "unknown", "", time.time() - t0, {"error": repr(ex)}
    return r[0], r[1], r[2], time.time() - t0, r[4]


class Discharger:
    """obligations are closed and solved in forked workers; stops early once `stop_after` of them failed"""

    def __init__(self, sums, workers=8, budget=25.0, deadline=None, stop_after=4, slow=1):
        self.slow = slow
        self.sums, self.workers, self.budget = sums, workers, budget
        self.deadline, self.stop_after = deadline, stop_after

    def run(self, obls):
        res, bad = {}, 0
        if not obls:
            return res
        _JOBS[:] = [(self.sums, obls, self.budget, self.slow)]
        # always in workers: a solver call that ignores its time limit must not stop the check
        ctx = mp.get_context("fork")
        with ctx.Pool(min(self.workers, len(obls))) as p:
            it = p.imap_unordered(_work, range(len(obls)))
            for _ in range(len(obls)):
                try:
                    r = it.next(timeout=min(max(0.1, self.deadline - time.time()) if self.deadline else 1e9, 150.0 * self.slow))
                except mp.TimeoutError:
                    break
                res[r[0]] = r[1:]
                if r[1] != "proved":
                    bad += 1
                    if bad >= self.stop_after:
                        break
            p.terminate()
        return res
