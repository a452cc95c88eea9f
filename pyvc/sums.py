"""Finite sums as first-class terms.

Sum_{lo<=k<hi} body is normalised by linearity (k-free factors are pulled out) into a combination of applications
S_id(lo, hi, p...) of uninterpreted functions; S_id stands for one k-dependent monomial whose free integer constants
are abstracted as parameters p.  The lemmas used about S_id (empty range, last/first term, congruence) are
instantiated in solve.py.
"""
from fractions import Fraction

import z3

from .values import R, Z, add, cmp, conc, ite, sub, mul, Unsupported, AND

RZ = z3.RealSort()
IZ = z3.IntSort()
MAXMONO = 300


def children(e):
    return [e.arg(i) for i in range(e.num_args())]


def contains(e, b, cache=None):
    cache = {} if cache is None else cache
    k = e.get_id()
    if k in cache:
        return cache[k]
    r = e.eq(b) or any(contains(c, b, cache) for c in children(e))
    cache[k] = r
    return r


def numeral(e):
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


class Poly:
    """polynomial over z3 atoms: {tuple(sorted (atom id)) : Fraction}"""

    def __init__(self, terms, atoms):
        self.t, self.a = terms, atoms


def _pmul(x, y):
    out = {}
    for m1, c1 in x.items():
        for m2, c2 in y.items():
            m = tuple(sorted(m1 + m2))
            c = out.get(m, 0) + c1 * c2
            if c:
                out[m] = c
            else:
                out.pop(m, None)
    if len(out) > MAXMONO:
        raise OverflowError
    return out


def poly(e, atoms, toreal=False):
    v = numeral(e)
    if v is not None:
        return {(): v} if v else {}
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD:
        out = {}
        for c in children(e):
            for m, q in poly(c, atoms, toreal).items():
                s = out.get(m, 0) + q
                if s:
                    out[m] = s
                else:
                    out.pop(m, None)
        return out
    if k == z3.Z3_OP_SUB:
        ch = children(e)
        out = dict(poly(ch[0], atoms, toreal))
        for c in ch[1:]:
            for m, q in poly(c, atoms, toreal).items():
                s = out.get(m, 0) - q
                if s:
                    out[m] = s
                else:
                    out.pop(m, None)
        return out
    if k == z3.Z3_OP_UMINUS:
        return {m: -q for m, q in poly(e.arg(0), atoms, toreal).items()}
    if k == z3.Z3_OP_MUL:
        out = {(): Fraction(1)}
        for c in children(e):
            out = _pmul(out, poly(c, atoms, toreal))
        return out
    if k == z3.Z3_OP_DIV:
        num = poly(e.arg(0), atoms, toreal)
        d = numeral(e.arg(1))
        if d:
            return {m: q / d for m, q in num.items()}
        inv = z3.RealVal(1) / e.arg(1)
        if numeral(e.arg(0)) == 1:
            atoms[e.get_id()] = e
            return {(e.get_id(),): Fraction(1)}
        atoms[inv.get_id()] = inv
        return _pmul(num, {(inv.get_id(),): Fraction(1)})
    if k == z3.Z3_OP_TO_REAL:
        return poly(e.arg(0), atoms, True)
    if toreal and e.sort() == IZ:
        e = z3.ToReal(e)
    atoms[e.get_id()] = e
    return {(e.get_id(),): Fraction(1)}


def is_square(e):
    """a product in which every factor occurs an even number of times"""
    if not z3.is_app(e) or e.decl().kind() != z3.Z3_OP_MUL:
        return False
    cnt = {}
    for c in children(e):
        cnt[c.sexpr()] = cnt.get(c.sexpr(), 0) + 1
    return all(v % 2 == 0 for v in cnt.values())


def delta(e, b):
    """e = If(b == c, .., 0): c"""
    if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and z3.is_eq(e.arg(0))):
        return None
    l, r = e.arg(0).arg(0), e.arg(0).arg(1)
    if l.sort() != IZ or numeral(e.arg(2)) != 0:
        return None
    if l.eq(b) and not contains(r, b):
        return r
    if r.eq(b) and not contains(l, b):
        return l
    return None


class SumFn:
    def __init__(self, fn, body, nparams):
        self.fn, self.body, self.nparams = fn, body, nparams
        self.square = is_square(body)


K = z3.Int("k!")


def P(i):
    return z3.Int(f"p!{i}")


def int_consts(e, out, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == IZ:
        if not any(x.eq(e) for x in out):
            out.append(e)
        return
    for c in children(e):
        int_consts(c, out, seen)


def order(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
        ch = sorted(children(e), key=lambda x: x.sexpr())
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    return e


def int_terms(e, b, out, seen):
    """maximal integer subterms of e without b"""
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if e.sort() == IZ and numeral(e) is None and not contains(e, b):
        if not any(x.eq(e) for x in out):
            out.append(e)
        return
    uf = z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED
    for c in children(e):
        if uf and z3.is_int_value(c) and contains(e, b):
            if not any(x.eq(c) for x in out):
                out.append(c)  # a concrete row or column number
            continue
        int_terms(c, b, out, seen)


def sortadd(e, cache=None):
    """integer sums with their summands in a fixed order"""
    cache = {} if cache is None else cache
    k = e.get_id()
    if k in cache:
        return cache[k]
    if not z3.is_app(e) or e.num_args() == 0:
        r = e
    else:
        ch = [sortadd(c, cache) for c in children(e)]
        if e.decl().kind() == z3.Z3_OP_ADD and e.sort() == IZ:
            ch.sort(key=lambda x: x.sexpr())
            r = ch[0]
            for c in ch[1:]:
                r = r + c
        elif all(a.eq(b) for a, b in zip(ch, children(e))):
            r = e
        else:
            r = e.decl()(*ch)
    cache[k] = r
    return r


class Sums:
    def __init__(self):
        self.keys, self.byname = {}, {}
        self.depth = 0
        self.namer = None
        self.scope = lambda lo, b, hi: None  # hook: push/pop range facts
        self.unscope = lambda: None

    @staticmethod
    def _bools(e):
        out, seen, st = [], set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.sort() == z3.BoolSort():
                out.append(x)
            st.extend(children(x))
        return out

    def reindex(self, lo, hi, body, b):
        """if b occurs only as b + c or only as c - b, sum over that instead"""
        forms, seen, st = [], set(), [body]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if not contains(x, b):
                continue
            if x.sort() == IZ and not (x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0) and x.decl().kind() != z3.Z3_OP_ITE:
                forms.append(x)
                continue
            if x.sort() == z3.BoolSort() and all(c.sort() == IZ for c in children(x)):
                continue  # comparisons follow
            st.extend(children(x))
        cs = []
        for x in forms:
            for sg in (1, -1):
                c = z3.simplify(x - b) if sg == 1 else z3.simplify(x + b)
                if not contains(c, b):
                    cs.append((sg, c))
                    break
            else:
                return lo, hi, body
        if not cs or any(sg != cs[0][0] for sg, _ in cs):
            return lo, hi, body
        if any(sg == 1 and numeral(c) == 0 for sg, c in cs):
            ds = {c.get_id(): c for _, c in cs}
            if len(ds) < 2 or any(x.sort() == z3.BoolSort() for x in self._bools(body)):
                return lo, hi, body
            best = None
            for c in ds.values():
                nb = order(z3.simplify(z3.substitute(body, (b, b - c))))
                ps = []
                int_terms(nb, b, ps, set())
                k = sortadd(z3.substitute(nb, (b, K), *[(p, P(i)) for i, p in enumerate(ps)])).sexpr()
                q = [sortadd(z3.simplify(p)).sexpr() for p in ps]
                k = (len(k), k, [len(x) for x in q], q)
                if best is None or k < best[0]:
                    best = (k, c, nb)
            _, c, nb = best
            return z3.simplify(Z(lo) + c), z3.simplify(Z(hi) + c), nb
        sg, c = min(cs, key=lambda t: t[1].sexpr())
        if sg == 1:
            nb = z3.simplify(z3.substitute(body, (b, b - c)))
            return z3.simplify(Z(lo) + c), z3.simplify(Z(hi) + c), nb
        nb = z3.simplify(z3.substitute(body, (b, c - b)))
        return z3.simplify(c - Z(hi) + 1), z3.simplify(c - Z(lo) + 1), nb

    def atom(self, lo, hi, body, b):
        lo, hi, body = self.reindex(lo, hi, body, b)
        ps = []
        int_terms(body, b, ps, set())
        can = sortadd(z3.substitute(body, (b, K), *[(p, P(i)) for i, p in enumerate(ps)]))
        key = can.sexpr()
        if key not in self.keys:
            name = f"S!{len(self.keys)}"
            fn = z3.Function(name, *([IZ] * (2 + len(ps)) + [RZ]))
            self.keys[key] = SumFn(fn, can, len(ps))
            self.byname[name] = self.keys[key]
        return self.keys[key].fn(Z(lo), Z(hi), *ps)

    def bodyat(self, sf, args, k):
        return z3.substitute(sf.body, (K, Z(k)), *[(P(i), Z(a)) for i, a in enumerate(args)])

    def sum(self, lo, hi, f):
        if conc(lo) and conc(hi):
            if hi - lo <= 64:
                tot = 0
                for k in range(lo, hi):
                    tot = add(tot, f(k))
                return tot
        b = z3.Int(f"b!{self.depth}")
        self.depth += 1
        self.scope(Z(lo), b, Z(hi))
        try:
            e = f(b)
        finally:
            self.unscope()
            self.depth -= 1
        return self.close(lo, hi, b, e)

    def close(self, lo, hi, b, e):
        """Sum of an already evaluated body e over constant b"""
        if conc(e):
            return mul(e, ite(cmp(">", hi, lo), sub(hi, lo), 0)) if e else 0
        if self.namer is not None:
            r = self.namer(lo, hi, b, R(e))
            if r is not None:
                return r
        e = z3.simplify(R(e), som=False)
        atoms = {}
        try:
            p = poly(e, atoms)
        except OverflowError:
            return self.atom(lo, hi, e, b)
        dep = {i: contains(x, b) for i, x in atoms.items()}
        groups = {}
        for m, c in p.items():
            d = tuple(sorted((a for a in m if dep[a]), key=lambda a: (atoms[a].sexpr(), a)))
            fr = [atoms[a] for a in m if not dep[a]]
            co = z3.Q(c.numerator, c.denominator)
            for x in fr:
                co = co * x
            groups.setdefault(d, []).append(co)
        tot = 0
        for d, cos in groups.items():
            co = cos[0]
            for x in cos[1:]:
                co = co + x
            if not d:
                n = ite(cmp(">", hi, lo), sub(hi, lo), 0)
                tot = add(tot, mul(co, n))
                continue
            if len(d) == 1:
                ifs = atoms[d[0]]
                if z3.is_app(ifs) and ifs.decl().kind() == z3.Z3_OP_ITE and not contains(ifs.arg(0), b):
                    t = ite(ifs.arg(0), self.close(lo, hi, b, ifs.arg(1)), self.close(lo, hi, b, ifs.arg(2)))
                    tot = add(tot, mul(co, t))
                    continue
            hit = None
            for q, a in enumerate(d):
                c = delta(atoms[a], b)
                if c is not None:
                    hit = (q, a, c)
                    break
            if hit is not None:
                # a factor that is special at one index only
                q, a, c = hit
                rest = z3.RealVal(1)
                for r, x in enumerate(d):
                    if r != q:
                        rest = rest * atoms[x]
                t, f = atoms[a].arg(1), atoms[a].arg(2)
                at = z3.substitute((t - f) * rest, (b, c))
                one = ite(AND(cmp(">=", c, lo), cmp("<", c, hi)), at, z3.RealVal(0))
                tot = add(tot, mul(co, add(one, self.close(lo, hi, b, z3.simplify(f * rest)))))
                continue
            body = atoms[d[0]]
            for a in d[1:]:
                body = body * atoms[a]
            tot = add(tot, mul(co, self.atom(lo, hi, body, b)))
        return tot
