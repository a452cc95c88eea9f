"""Models of the builtins and of the parts of math, numpy and copy that the repository uses."""
from fractions import Fraction

import z3

from .interp import COS, EXCS, EXP, ExcClass, LOG, PI, POW, Q, ROUND, SIN, SQRT
from .sums import IZ, RZ
from .values import *


def M(name):
    def deco(f):
        return Model(name, f)
    return deco


def scalar_fn(F, domain=None):
    def f(I, args, kw):
        x = args[0]
        if isinstance(x, (ListObj, tuple)):
            x = I.toarr(x)
        if isinstance(x, Arr):
            s = x.snap()
            if domain:
                if x.ndim == 1 and conc(x.shape[0]):
                    for i in range(x.shape[0]):
                        I.prove(f"{F.name()} argument in domain", domain(s(i)), kind="safety")
                else:
                    I.prove(f"{F.name()} argument in domain", Q(x.ndim, lambda *j: z3.Implies(
                        Z(AND(True, *[AND(cmp(">=", a, 0), cmp("<", a, d)) for a, d in zip(j, x.shape)])), Z(domain(s(*j))))), kind="safety")
            return I.mkarr(x.shape, lambda *j: cexp(s(*j)) if F is EXP else F(z3.simplify(R(s(*j)))), "complex" if x.dtype == "complex" else "real")
        if isinstance(x, Cx) and F is EXP:
            return cexp(x)
        if domain:
            I.prove(f"{F.name()} argument in domain", domain(x), kind="safety")
        return F(z3.simplify(R(x)))
    return f


def cexp(z):
    if not isinstance(z, Cx):
        return EXP(z3.simplify(R(z)))
    p = z3.simplify(R(z.im))
    if conc(z.re) and z.re == 0:
        return Cx(COS(p), SIN(p))
    e = EXP(z3.simplify(R(z.re)))
    return Cx(e * COS(p), e * SIN(p))


FC = z3.Function("cos2pi", IZ, IZ, IZ, RZ)  # cos(2 pi j k / m), sin(2 pi j k / m)
FS = z3.Function("sin2pi", IZ, IZ, IZ, RZ)


def n_fft(inverse):
    """the discrete Fourier transform by its definition"""
    def f(I, a, k):
        x = a[0]
        if not (isinstance(x, Arr) and x.ndim == 1) or len(a) > 2:
            raise Unsupported("fft of this value")
        m = x.shape[0]
        n = k.get("n", a[1] if len(a) > 1 else None)
        if n is not None and I._decide(cmp("==", n, m)) is not True:
            raise Unsupported("fft with padding or truncation")
        s, mz, memo = x.snap(), Z(m), {}
        def at(kk):  # one term per index: a second look gives the identical sum
            t = Z(kk)
            if t.get_id() not in memo:
                memo[t.get_id()] = (t, value(t))
            return memo[t.get_id()][1]

        def value(kk):
            def part(which):
                def body(j):
                    c, d = FC(Z(j), Z(kk), mz), FS(Z(j), Z(kk), mz)
                    z = mul(s(j), Cx(c, d if inverse else -d))
                    return z.re if which == 0 else z.im
                r = I.sumover(0, m, body)
                return mul(r, truediv(1, R(m))) if inverse else r
            return Cx(part(0), part(1))

        I.transforms = getattr(I, "transforms", []) + [(inverse, m, s, at)]  # ghost record of the calls
        return I.mkarr((m,), at, "complex")
    return f


def n_part(which):
    def f(I, a, k):
        x = a[0]
        g = lambda z: (cx(z).re, cx(z).im)[which]
        if isinstance(x, Arr):
            s = x.snap()
            return I.mkarr(x.shape, lambda *j: g(s(*j)))
        if is_num(x) or isinstance(x, Cx):
            return g(x)
        raise Unsupported("real/imag part")
    return f


def n_conj(I, a, k):
    x, g = a[0], lambda z: Cx(cx(z).re, neg(cx(z).im))
    if isinstance(x, Arr):
        s = x.snap()
        return I.mkarr(x.shape, lambda *j: g(s(*j)), x.dtype)
    return g(x)


def n_isfinite(I, a, k):
    if isinstance(a[0], Arr):  # the numbers of the model are mathematical reals
        return I.mkarr(a[0].shape, lambda *j: True, "bool")
    return True


def n_extreme(op):
    """smallest or largest element of an array of any length"""
    def f(I, a, k):
        x = a[0]
        if len(a) == 1 and isinstance(x, Arr) and x.ndim == 1 and not conc(x.shape[0]):
            s, n = x.snap(), x.shape[0]
            I.prove("extremum of a nonempty array", cmp(">", n, 0), kind="safety")
            r, w = I.fresh("extreme"), I.fresh("sk!e", IZ)
            I.extremes = getattr(I, "extremes", []) + [(w, n)]
            I.assume(z3.And(w >= 0, w < Z(n), r == R(s(w))))
            I.assume(Q(1, lambda i: z3.Implies(z3.And(i >= 0, i < Z(n)), Z(cmp("<=" if op == "<" else ">=", r, s(i))))))
            return r
        return minmax(op)(I, a, k)
    return f


def pos(x):
    return cmp(">", x, 0)


def f_sqrt(I, a, k):
    return I.sqrt(a[0])


def f_abs(I, a, k):
    x = a[0]
    if isinstance(x, Arr):
        s = x.snap()
        return I.mkarr(x.shape, lambda *j: ite(cmp(">=", s(*j), 0), s(*j), neg(s(*j))))
    if conc(x):
        return abs(x)
    return ite(cmp(">=", x, 0), x, neg(x))


def f_floor(I, a, k):
    x = a[0]
    if conc(x):
        import math
        return math.floor(x)
    if is_intlike(x):
        return x
    return z3.ToInt(R(x))


def f_ceil(I, a, k):
    x = a[0]
    if conc(x):
        import math
        return math.ceil(x)
    if is_intlike(x):
        return x
    return -z3.ToInt(-R(x))


def whole(x):
    """c * t / d for integer t and d | c: the integer itself"""
    x = z3.simplify(x)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
        return x.arg(0)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2:
        c, t = x.arg(0), x.arg(1)
        if z3.is_rational_value(c) and c.denominator_as_long() == 1 and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
            return c.numerator_as_long() * t.arg(0)
    return None


def f_int(I, a, k):
    x = a[0]
    if isinstance(x, bool):
        return int(x)
    if is_intlike(x):
        return x
    if conc(x):
        return int(x)
    if is_num(x):
        t = whole(R(x))
        if t is not None:
            return t
        return z3.If(R(x) >= 0, z3.ToInt(R(x)), -z3.ToInt(-R(x)))
    if is_boollike(x):
        return ite(x, 1, 0)
    raise Unsupported("int()")


def f_float(I, a, k):
    x = a[0]
    if isinstance(x, str):
        if x in ("-inf", "inf", "+inf"):
            return Inf(-1 if x[0] == "-" else 1)
        return Fraction(x)
    if isinstance(x, (Inf, Ext)):
        return x
    if conc(x):
        return Fraction(x)
    if is_num(x):
        return R(x)
    raise Unsupported("float()")


def f_len(I, a, k):
    x = a[0]
    if isinstance(x, tuple):
        return len(x)
    if isinstance(x, ListObj):
        return len(x.items)
    if isinstance(x, SymSeq):
        return x.length
    if isinstance(x, Arr):
        if x.ndim == 0:
            I.raise_("TypeError")
        return x.shape[0]
    if isinstance(x, str):
        return len(x)
    if is_num(x):
        I.raise_("TypeError")
    if hasattr(x, "model_len"):
        return x.model_len(I)
    raise Unsupported("len()")


def f_range(I, a, k):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = a[0], a[1], a[2] if len(a) > 2 else 1
    if not conc(st):
        raise Unsupported("symbolic range step")
    for x in (lo, hi):
        if not is_intlike(x):
            I.raise_("TypeError")
    return RangeVal(lo, hi, st)


def f_isinstance(I, a, k):
    x, t = a
    ts = t if isinstance(t, tuple) else (t,)
    for ty in ts:
        if isinstance(ty, TypeRef):
            n = ty.name
            if n == "int" and (is_intlike(x) or is_boollike(x)):
                return True
            if n == "float" and ((is_num(x) and not is_intlike(x)) or isinstance(x, (Inf, Ext))):
                return True
            if n == "bool" and is_boollike(x):
                return True
            if n == "ndarray" and isinstance(x, Arr):
                return True
            if n == "tuple" and isinstance(x, tuple):
                return True
            if n == "list" and isinstance(x, ListObj):
                return True
            if n == "str" and isinstance(x, (str, Str)):
                return True
            if n == "number" and is_num(x):
                return True
        elif isinstance(ty, ClassRef):
            if isinstance(x, Obj) and hasattr(x.cls, "methods") and any(c is ty.info for c in I.mro(x.cls)):
                return True
            if isinstance(x, EnumMember) and x.cls == ty.info.name:
                return True
        else:
            raise Unsupported("isinstance type")
    if x is not None and not (is_num(x) or is_boollike(x) or isinstance(x, (Arr, tuple, ListObj, SymSeq, Obj, str, Str, EnumMember, Inf, Ext))):
        raise Unsupported("isinstance of opaque value")
    return False


def f_type(I, a, k):
    x = a[0]
    if is_boollike(x):
        return TypeRef("bool")
    if is_intlike(x):
        return TypeRef("int")
    if is_num(x) or isinstance(x, (Inf, Ext)):
        return TypeRef("float")
    if isinstance(x, tuple):
        return TypeRef("tuple")
    if isinstance(x, ListObj):
        return TypeRef("list")
    if isinstance(x, Arr):
        return TypeRef("ndarray")
    if isinstance(x, Obj) and hasattr(x.cls, "methods"):
        return ClassRef(x.cls)
    raise Unsupported("type()")


def sumseq(I, v, start=0, axis=None):
    if isinstance(v, Arr):
        s = v.snap()
        if v.ndim == 1:
            return add(start, I.sumover(0, v.shape[0], lambda k: num(s(k))))
        if axis is None:
            return add(start, I.sumover(0, v.shape[0], lambda a: I.sumover(0, v.shape[1], lambda b: num(s(a, b)))))
        if axis == 0:
            return I.mkarr((v.shape[1],), lambda j: I.sumover(0, v.shape[0], lambda k: s(k, j)))
        if axis in (1, -1):
            return I.mkarr((v.shape[0],), lambda j: I.sumover(0, v.shape[1], lambda k: s(j, k)))
        raise Unsupported("sum axis")
    if isinstance(v, FiltSeq):
        n, b = v.length, I.fresh("it!c", IZ)
        e, c = v.at(b), v.cond(b)
        zero = Fraction(0)
        if isinstance(e, Arr):
            f = e.snap()
            r = I.mkarr(e.shape, lambda *j: I.sums.close(0, n, b, R(ite(c, f(*j), zero))))
            return r if conc(start) and start == 0 else I.binop("Add", start, r)
        return add(start, I.sumover(0, n, lambda k: ite(v.cond(k), R(num(v.at(k))), zero)))
    n, at = I.seq_of(v)
    if conc(n):
        tot = start
        for i in range(n):
            tot = I.binop("Add", tot, at(i))
        return tot
    b = I.fresh("it!c", IZ)
    e = at(b)
    if isinstance(e, Arr):
        f = e.snap()
        sh = e.shape
        r = I.mkarr(sh, lambda *j: I.sums.close(0, n, b, R(f(*j))))
        return r if conc(start) and start == 0 else I.binop("Add", start, r)
    return add(start, I.sumover(0, n, lambda k: num(at(k))))


def num(x):
    if is_boollike(x):
        return int(x) if isinstance(x, bool) else ite(x, 1, 0)
    return x


def f_sum(I, a, k):
    v = a[0].seq if isinstance(a[0], GenVal) else a[0]
    if isinstance(v, Arr) and v.ndim == 2:
        return sumseq(I, v, 0, 0)
    return sumseq(I, v, a[1] if len(a) > 1 else k.get("start", 0))


def f_npsum(I, a, k):
    v = a[0].seq if isinstance(a[0], GenVal) else a[0]
    return sumseq(I, v if isinstance(v, Arr) else I.toarr(v), 0, k.get("axis", a[1] if len(a) > 1 else None))


def f_zip(I, a, k):
    sq = [I.seq_of(x) for x in a]
    n = sq[0][0]
    for m, _ in sq[1:]:
        if conc(n) and conc(m):
            n = min(n, m)
        elif I._decide(cmp("==", n, m)) is not True:
            n = ite(cmp("<=", n, m), n, m)
    return SymSeq(n, lambda i: tuple(at(i) for _, at in sq))


def f_enumerate(I, a, k):
    n, at = I.seq_of(a[0])
    st = a[1] if len(a) > 1 else k.get("start", 0)
    return SymSeq(n, lambda i: (add(st, i), at(i)))


def f_reversed(I, a, k):
    n, at = I.seq_of(a[0])
    return SymSeq(n, lambda i: at(sub(sub(n, 1), i)))


def f_list(I, a, k):
    if not a:
        return I.mklist([])
    try:
        return I.mklist(I.concrete_items(a[0]))
    except Unsupported:
        n, at = I.seq_of(a[0])
        return SymSeq(n, at)


def f_tuple(I, a, k):
    if not a:
        return ()
    return tuple(I.concrete_items(a[0]))


def minmax(op):
    def f(I, a, k):
        if len(a) == 1:
            v = a[0].seq if isinstance(a[0], GenVal) else a[0]
            items = I.concrete_items(v)
        else:
            items = list(a)
        r = items[0]
        for x in items[1:]:
            if isinstance(r, Arr) or isinstance(x, Arr):
                raise Unsupported("min/max of arrays")
            if isinstance(r, (Inf, Ext)) or isinstance(x, (Inf, Ext)):
                r = x if I.branch(cmp(op, x, r)) else r
            else:
                c = cmp(op, x, r)
                r = (x if c else r) if isinstance(c, bool) else ite(c, x, r)
        return r
    return f


def f_allany(isall):
    def f(I, a, k):
        v = a[0].seq if isinstance(a[0], GenVal) else a[0]
        if is_boollike(v):
            return v
        if isinstance(v, Arr):
            s = v.snap()
            tb = (lambda x: x) if v.dtype == "bool" else (lambda x: cmp("!=", x, 0))
            if v.ndim != 1:
                raise Unsupported("all/any of a matrix")
            n, at = v.shape[0], lambda i: tb(s(i))
        elif isinstance(v, FiltSeq):
            n, at = v.length, lambda i: (OR(NOT(v.cond(i)), I.truth(v.at(i))) if isall else AND(v.cond(i), I.truth(v.at(i))))
        else:
            n, at0 = I.seq_of(v)
            at = lambda i: I.truth(at0(i))
        if conc(n):
            xs = [at(i) for i in range(n)]
            return AND(True, *xs) if isall else OR(False, *xs)
        p = I.fresh("all" if isall else "any", z3.BoolSort())
        sk = I.fresh("sk!w", IZ)
        rng = z3.And(sk >= 0, sk < Z(n))
        if isall:
            I.assume(z3.Or(p, z3.And(rng, Z(NOT(at(sk))))))
            I.assume(Q(1, lambda i: z3.Implies(z3.And(p, i >= 0, i < Z(n)), Z(at(i)))))
        else:
            I.assume(z3.Or(z3.Not(p), z3.And(rng, Z(at(sk)))))
            I.assume(Q(1, lambda i: z3.Implies(z3.And(z3.Not(p), i >= 0, i < Z(n)), Z(NOT(at(i))))))
        return p
    return f


def f_pow(I, a, k):
    return I.binop("Pow", a[0], a[1])


def f_round(I, a, k):
    x = a[0]
    if len(a) > 1:
        raise Unsupported("round digits")
    return scalar_fn(ROUND)(I, a, k)


def f_print(I, a, k):
    return None


def builtin(I, name):
    if name in EXCS:
        return ExcClass(name)
    t = {"len": f_len, "range": f_range, "isinstance": f_isinstance, "sum": f_sum, "zip": f_zip,
         "enumerate": f_enumerate, "reversed": f_reversed, "abs": f_abs, "min": minmax("<"), "max": minmax(">"),
         "all": f_allany(True), "any": f_allany(False), "pow": f_pow, "type": f_type, "print": f_print, "round": f_round}
    if name in t:
        return Model(name, t[name])
    if name in ("int", "float", "bool", "tuple", "list", "str", "object"):
        return TypeRef(name)
    if name in ("True", "False", "None"):
        return {"True": True, "False": False, "None": None}[name]
    raise Unsupported(f"name {name}")


def type_call(I, t, a, k):
    if t.name == "int":
        return f_int(I, a, k)
    if t.name in ("float", "number"):
        return f_float(I, a, k)
    if t.name == "bool":
        return I.truth(a[0])
    if t.name == "list":
        return f_list(I, a, k)
    if t.name == "tuple":
        return f_tuple(I, a, k)
    if t.name == "str":
        return Str()
    raise Unsupported(f"call of type {t.name}")


# ------------------------------------------------------------------ numpy

def shape_of(x):
    if isinstance(x, tuple):
        return x
    return (x,)


def n_zeros(I, a, k):
    return I.mkarr(shape_of(a[0] if a else k["shape"]), lambda *j: Fraction(0))


def n_ones(I, a, k):
    return I.mkarr(shape_of(a[0] if a else k["shape"]), lambda *j: Fraction(1))


def n_full(I, a, k):
    return I.mkarr(shape_of(a[0]), lambda *j: a[1])


def n_eye(I, a, k):
    n = a[0]
    return I.mkarr((n, n), lambda i, j: ite(decide(cmp("==", i, j)), Fraction(1), Fraction(0)))


def n_diag(I, a, k):
    v = I.toarr(a[0]) if not isinstance(a[0], Arr) else a[0]
    s = v.snap()
    if v.ndim == 1:
        n = v.shape[0]
        return I.mkarr((n, n), lambda i, j: ite(decide(cmp("==", i, j)), s(i), Fraction(0)))
    return I.mkarr((v.shape[0],), lambda i: s(i, i))


def n_array(I, a, k):
    v = a[0].seq if isinstance(a[0], GenVal) else a[0]
    if isinstance(v, VCell):
        return copyval(I, v)
    if isinstance(v, Arr):
        return I.copyarr(v)
    if is_num(v):
        return I.mkarr((), lambda: v)
    r = I.toarr(v)
    return I.copyarr(r) if isinstance(v, Arr) else r


def n_asarray(I, a, k):
    return a[0] if isinstance(a[0], Arr) else n_array(I, a, k)


def n_outer(I, a, k):
    x, y = [v if isinstance(v, Arr) else I.toarr(v) for v in a]
    fx, fy = x.snap(), y.snap()
    return I.mkarr((x.shape[0], y.shape[0]), lambda i, j: mul(fx(i), fy(j)))


def n_dot(I, a, k):
    if is_num(a[0]) or is_num(a[1]):
        return I.binop("Mult", a[0], a[1])
    return I.dot(a[0], a[1])


def n_bin(op):
    def f(I, a, k):
        if "out" in k or len(a) > 2:
            o = k.get("out", a[2] if len(a) > 2 else None)
            if isinstance(o, tuple):
                o = o[0]
            r = I.binop(op, a[0], a[1])
            I.setall(o, r.snap())
            return o
        return I.binop(op, a[0], a[1])
    return f


def n_cmp(op):
    return lambda I, a, k: I.compare(op, a[0], a[1])


def n_where(I, a, k):
    if len(a) != 3:
        raise Unsupported("np.where")
    c, x, y = a
    if not isinstance(c, Arr):
        c = I.truth(c)
        return x if I.branch(c) else y
    fc = c.snap()
    fx = x.snap() if isinstance(x, Arr) else lambda *j: x
    fy = y.snap() if isinstance(y, Arr) else lambda *j: y
    for v in (x, y):
        if isinstance(v, Arr):
            for p, q in zip(v.shape, c.shape):
                I.same_dim(p, q)
    if c.ndim == 1 and conc(c.shape[0]) and c.shape[0] <= 3 and not I.nosplit:
        pick = [I.branch(fc(j)) for j in range(c.shape[0])]
        vals = [fx(j) if b else fy(j) for j, b in enumerate(pick)]
        return I.toarr(tuple(vals))
    return I.mkarr(c.shape, lambda *j: ite(fc(*j), fx(*j), fy(*j)))


def n_minmax(op):
    def f(I, a, k):
        return I.elementwise(lambda x, y: ite(cmp(op, x, y), x, y), a[0], a[1]) if isinstance(a[0], Arr) or isinstance(a[1], Arr) \
            else minmax(op)(I, a, k)
    return f


def n_linspace(I, a, k):
    lo, hi, n = a[0], a[1], a[2] if len(a) > 2 else k["num"]
    ep = k.get("endpoint", True)
    den = sub(n, 1) if ep else n
    if not conc(den):
        I.prove("linspace has more than one point", cmp(">", den, 0), kind="safety")
    step = truediv(sub(hi, lo) if not conc(hi) else Fraction(hi) - Fraction(lo) if conc(lo) else sub(hi, lo), den)
    return I.mkarr((n,), lambda i: add(R(lo), mul(R(i), step)))


def exact_quotient(e, c):
    """ceil(e / c), with c * t / c = t"""
    p = z3.simplify(e)
    if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_MUL and p.num_args() == 2 and z3.is_int_value(p.arg(0)) and p.arg(0).as_long() % c == 0:
        f = p.arg(0).as_long() // c
        return p.arg(1) if f == 1 else f * p.arg(1)
    return (Z(e) + (c - 1)) / c


def n_arange(I, a, k):
    if len(a) == 1:
        lo, hi = 0, a[0]
    else:
        lo, hi = a[0], a[1]
    step = k.get("step", a[2] if len(a) > 2 else 1)
    if not (isinstance(step, int) and step >= 1 and is_intlike(lo) and is_intlike(hi)) and step != 1:
        raise Unsupported("arange step")
    ln = sub(hi, lo)
    if step != 1:
        ln = -(-ln // step) if conc(ln) else exact_quotient(ln, step)

    if not conc(ln) and I._decide(cmp(">=", ln, 0)) is not True:
        ln = ite(cmp(">=", ln, 0), ln, 0)
    return I.mkarr((ln,), lambda i: add(lo, mul(i, step) if step != 1 else i), "int" if is_intlike(lo) and is_intlike(hi) else "real")


def n_concat(I, a, k):
    parts = [x if isinstance(x, Arr) else I.toarr(x) for x in I.concrete_items(a[0])]
    ax = k.get("axis", a[1] if len(a) > 1 else 0)
    return concat(I, parts, ax)


def concat(I, parts, ax):
    if parts[0].ndim == 1:
        ax = 0
    if ax < 0:
        ax += parts[0].ndim
    for p in parts[1:]:
        for d in range(parts[0].ndim):
            if d != ax:
                I.same_dim(p.shape[d], parts[0].shape[d])
    offs, tot = [], 0
    for p in parts:
        offs.append(tot)
        tot = add(tot, p.shape[ax])
    sn = [p.snap() for p in parts]
    shape = list(parts[0].shape)
    shape[ax] = tot

    def at(*j):
        r = None
        for q in range(len(parts) - 1, -1, -1):
            jj = list(j)
            jj[ax] = sub(j[ax], offs[q])
            if r is None:
                r = lambda jj=jj, q=q: sn[q](*jj)
            else:
                nxt = r

                def r(jj=jj, q=q, nxt=nxt):
                    c = decide(cmp("<", j[ax], offs[q + 1]))
                    if c is True:
                        return sn[q](*jj)
                    if c is False:
                        return nxt()
                    return ite(c, sn[q](*jj), nxt())
        return r()

    return I.mkarr(shape, at)


def n_hstack(I, a, k):
    parts = [x if isinstance(x, Arr) else I.toarr(x) for x in I.concrete_items(a[0])]
    return concat(I, parts, 0 if parts[0].ndim == 1 else 1)


def n_convolve(I, a, k):
    x, y = [v if isinstance(v, Arr) else I.toarr(v) for v in a[:2]]
    if len(a) > 2 and a[2] != "full" or k.get("mode", "full") != "full":
        raise Unsupported("convolve mode")
    n, m = x.shape[0], y.shape[0]
    fx, fy = x.snap(), y.snap()

    def at(j):
        lo = ite(decide(cmp("<=", sub(j, sub(m, 1)), 0)), 0, sub(j, sub(m, 1)))
        hi = ite(decide(cmp("<=", add(j, 1), n)), add(j, 1), n)
        return I.sumover(lo, hi, lambda t: mul(fx(t), fy(sub(j, t))))

    return I.mkarr((sub(add(n, m), 1),), at)


def n_correlate(I, a, k):
    """np.correlate(x, y, mode='full')[j] = sum_t x[t] y[t - j + m - 1]"""
    x, y = a[0], a[1]
    mode = a[2] if len(a) > 2 else k.get("mode", "valid")
    if mode != "full":
        raise Unsupported("correlate mode")
    r = view(y, [("ax", sub(y.shape[0], 1), -1, 0)], y.shape)
    r.serial = I.new_serial()
    return n_convolve(I, [x, r], {})


def n_norm(I, a, k):
    v = a[0]
    if v.ndim != 1 or len(a) > 1 or k:
        raise Unsupported("norm")
    s = v.snap()
    t = I.sumover(0, v.shape[0], lambda i: mul(s(i), s(i)))
    I.assume(cmp(">=", t, 0))  # a sum of squares
    return I.sqrt(t)


def n_copyto(I, a, k):
    I.setall(a[0], a[1].snap() if isinstance(a[1], Arr) else (lambda *j: a[1]))


def n_like(v):
    return lambda I, a, k: I.mkarr(a[0].shape, lambda *j: Fraction(v))


def n_trans(I, x):
    if x.ndim == 1:
        return x
    v = view(x, [("ax", 0, 1, 1), ("ax", 0, 1, 0)], (x.shape[1], x.shape[0]))
    v.serial = I.new_serial()
    return v


def n_vec2(name):
    def f(I, a, k):
        x, y = [v if isinstance(v, Arr) else I.toarr(v) for v in a]
        if x.ndim != 1 or y.ndim != 1:
            raise Unsupported(f"np.{name} of these ranks")
        return I.dot(x, y)
    return f


def reshape(I, o, sh):
    """vectors to columns and rows and back"""
    if len(sh) == 1 and isinstance(sh[0], tuple):
        sh = sh[0]
    one = lambda d: conc(d) and d == 1
    if o.ndim == 1:
        n = o.shape[0]
        full = lambda d: conc(d) and d == -1 or not conc(d) and I._decide(cmp("==", d, n)) is True or conc(d) and conc(n) and d == n
        if len(sh) == 1 and full(sh[0]):
            return I.getitem(o, ("slice", None, None, None))
        if len(sh) == 2 and full(sh[0]) and one(sh[1]):
            return I.getitem(o, (("slice", None, None, None), None))
        if len(sh) == 2 and one(sh[0]) and full(sh[1]):
            return I.getitem(o, (None, ("slice", None, None, None)))
    if o.ndim == 2 and len(sh) == 1 and conc(sh[0]) and sh[0] == -1:
        if one(o.shape[0]):
            return I.getitem(o, 0)
        if one(o.shape[1]):
            return I.getitem(o, (("slice", None, None, None), 0))
    raise Unsupported("reshape")


def n_empty(I, a, k):
    """uninitialised content: anything"""
    sh = shape_of(a[0] if a else k["shape"])
    F = z3.Function(f"empty!{I.new_serial()}", *[IZ] * len(sh), RZ)
    return I.mkarr(sh, lambda *j: F(*[z3.IntVal(x) if conc(x) else x for x in j]))


def n_filldiag(I, a, k):
    m, v = a[0], a[1]
    old = m.snap()
    if m.ndim != 2:
        raise Unsupported("fill_diagonal")
    f = (lambda i: v) if is_num(v) else v.snap()
    if isinstance(v, Arr):
        I.same_dim(v.shape[0], m.shape[0])
    I.setall(m, lambda i, j: ite(decide(cmp("==", i, j)), f(i), old(i, j)))


def n_tri(op):
    def f(I, a, k):
        m = a[0]
        sh = a[1] if len(a) > 1 else k.get("k", 0)
        s = m.snap()
        return I.mkarr(m.shape, lambda i, j: ite(decide(cmp(op, sub(j, i), sh)), s(i, j), Fraction(0)))
    return f


def n_sign(I, a, k):
    g = lambda x: ite(cmp(">", x, 0), Fraction(1), ite(cmp("<", x, 0), Fraction(-1), Fraction(0)))
    x = a[0]
    if isinstance(x, Arr):
        s = x.snap()
        return I.mkarr(x.shape, lambda *j: g(s(*j)))
    return g(x)


def n_trace(I, a, k):
    s = a[0].snap()
    return I.sumover(0, a[0].shape[0], lambda i: s(i, i))


def n_countnz(I, a, k):
    s = a[0].snap()
    if a[0].ndim != 1:
        raise Unsupported("count_nonzero")
    f = (lambda x: x) if a[0].dtype == "bool" else (lambda x: cmp("!=", x, 0))
    return I.sumover(0, a[0].shape[0], lambda i: num(f(s(i))))


def n_vstack(I, a, k):
    parts = [x if isinstance(x, Arr) else I.toarr(x) for x in I.concrete_items(a[0])]
    return concat(I, [I.getitem(x, (None, ("slice", None, None, None))) if x.ndim == 1 else x for x in parts], 0)


def n_colstack(I, a, k):
    parts = [x if isinstance(x, Arr) else I.toarr(x) for x in I.concrete_items(a[0])]
    return concat(I, [I.getitem(x, (("slice", None, None, None), None)) if x.ndim == 1 else x for x in parts], 1)


def astype(I, o, a):
    if len(a) == 1 and isinstance(a[0], TypeRef) and a[0].name == "float" or a and isinstance(a[0], Model) and a[0].name == "np.float64":
        return I.copyarr(o)
    raise Unsupported("astype")


# keyword arguments the models take into account; any other is out of reach
KW = {"sum": {"axis"}, "concatenate": {"axis"}, "linspace": {"num", "endpoint"}, "convolve": {"mode"}, "correlate": {"mode"}, "add": {"out"}, "subtract": {"out"},
      "multiply": {"out"}, "divide": {"out"}, "tril": {"k"}, "triu": {"k"}, "zeros": {"shape", "dtype"}, "ones": {"shape", "dtype"}, "empty": {"shape", "dtype"},
      "array": {"dtype"}, "asarray": {"dtype"}, "arange": {"step"}, "full": {"dtype"}, "eye": {"dtype"}, "zeros_like": {"dtype"}, "ones_like": {"dtype"}}


def strict(name, f, allowed):
    def g(I, a, k):
        for x, v in k.items():
            if x not in allowed:
                raise Unsupported(f"keyword {x} of {name}")
            if x == "dtype" and not (isinstance(v, TypeRef) and v.name == "float" or isinstance(v, Model) and v.name == "np.float64"):
                raise Unsupported(f"dtype of {name}")
        return f(I, a, k)
    return g


def n_isclose(I, a, k):
    raise Unsupported("np.isclose")


NP = {
    "zeros": n_zeros, "ones": n_ones, "full": n_full, "eye": n_eye, "identity": n_eye, "diag": n_diag, "array": n_array,
    "asarray": n_asarray, "copy": n_array, "outer": n_outer, "dot": n_dot, "matmul": n_dot, "inner": n_vec2("inner"), "vdot": n_vec2("vdot"),
    "all": f_allany(True), "any": f_allany(False), "sum": f_npsum, "exp": scalar_fn(EXP), "log": scalar_fn(LOG, pos),
    "sqrt": f_sqrt, "cos": scalar_fn(COS), "sin": scalar_fn(SIN), "round": f_round, "around": f_round, "rint": f_round,
    "abs": f_abs, "absolute": f_abs, "fabs": f_abs, "add": n_bin("Add"), "subtract": n_bin("Sub"), "multiply": n_bin("Mult"),
    "divide": n_bin("Div"), "true_divide": n_bin("Div"), "power": n_bin("Pow"), "negative": lambda I, a, k: I.unary("USub", a[0]),
    "square": lambda I, a, k: I.binop("Mult", a[0], a[0]), "where": n_where, "maximum": n_minmax(">="), "minimum": n_minmax("<="),
    "linspace": n_linspace, "arange": n_arange, "concatenate": n_concat, "hstack": n_hstack, "convolve": n_convolve,
    "correlate": n_correlate, "copyto": n_copyto, "zeros_like": n_like(0), "ones_like": n_like(1),
    "transpose": lambda I, a, k: n_trans(I, a[0]), "equal": n_cmp("Eq"), "not_equal": n_cmp("NotEq"),
    "float64": f_float, "max": n_extreme(">"), "min": n_extreme("<"), "amax": n_extreme(">"), "amin": n_extreme("<"), "real": n_part(0), "imag": n_part(1), "conj": n_conj, "conjugate": n_conj, "isfinite": n_isfinite, "column_stack": n_colstack, "vstack": n_vstack, "floor": f_floor, "empty": n_empty, "fill_diagonal": n_filldiag,
    "tril": n_tri("<="), "triu": n_tri(">="), "sign": n_sign, "trace": n_trace, "count_nonzero": n_countnz, "diagonal": n_diag,
    "empty_like": lambda I, a, k: n_empty(I, [tuple(a[0].shape)], {}), "full_like": lambda I, a, k: I.mkarr(a[0].shape, lambda *j: a[1]),
    "reshape": lambda I, a, k: reshape(I, a[0], a[1:]), "ravel": lambda I, a, k: reshape(I, a[0], (-1,)) if a[0].ndim == 2 else a[0],
    "flip": lambda I, a, k: I.getitem(a[0], ("slice", None, None, -1)),
}
LINALG = {"norm": n_norm}
FFT = {"fft": n_fft(False), "ifft": n_fft(True)}
MATH = {"sqrt": f_sqrt, "log": scalar_fn(LOG, pos), "exp": scalar_fn(EXP), "cos": scalar_fn(COS), "sin": scalar_fn(SIN),
        "floor": f_floor, "ceil": f_ceil, "fabs": f_abs, "pow": f_pow, "fsum": f_sum, "trunc": f_int}


def copyval(I, v, deep=False):
    if isinstance(v, Arr):
        return I.copyarr(v)
    if isinstance(v, VCell):
        c = VCell(v.content)
        c.serial = I.new_serial()
        return c
    if isinstance(v, ListObj):
        return I.mklist([copyval(I, x, True) for x in v.items] if deep else v.items)
    if isinstance(v, tuple):
        return tuple(copyval(I, x, True) for x in v) if deep else v
    if isinstance(v, Obj):
        if v.model is not None and "__copy__" in v.model:
            return v.model["__copy__"](I, v, [deep], {})
        if v.cls is not None:
            I.plain_class(v.cls)
        o = Obj(v.cls, v.name)
        o.serial = I.new_serial()
        o.model = v.model
        o.attrs = {k: (copyval(I, x, True) if deep else x) for k, x in v.attrs.items()}
        return o
    if isinstance(v, SymSeq):
        return v
    if v is None or is_num(v) or is_boollike(v) or isinstance(v, (str, EnumMember, Inf, Ext, Func)):
        return v
    if isinstance(v, Bound):
        return v
    if hasattr(v, "copyval"):
        return v.copyval(I, deep)
    raise Unsupported("copy of this value")


def module_attr(I, mod, name):
    if mod in ("numpy",):
        if name == "pi":
            return PI
        if name == "inf":
            return Inf(1)
        if name in ("linalg", "fft"):
            return ModRef("numpy." + name)
        if name in ("ndarray",):
            return TypeRef("ndarray")
        if name in ("floating", "number"):
            return TypeRef("number")
        if name in ("newaxis",):
            return None
        if NP.get(name):
            return Model("np." + name, strict("np." + name, NP[name], KW.get(name, ())))
    if mod == "numpy.fft" and name in FFT:
        return Model("np.fft." + name, strict(name, FFT[name], ("n",)))
    if mod == "numpy.linalg" and name in LINALG:
        return Model("np.linalg." + name, strict(name, LINALG[name], ()))
    if mod == "math":
        if name == "pi":
            return PI
        if name == "inf":
            return Inf(1)
        if name in MATH:
            return Model("math." + name, MATH[name])
    if mod == "copy":
        if name == "copy":
            return Model("copy.copy", lambda I, a, k: copyval(I, a[0]))
        if name == "deepcopy":
            return Model("copy.deepcopy", lambda I, a, k: copyval(I, a[0], True))
    if mod == "typing" or mod == "abc" or mod == "collections.abc" or mod == "__future__":
        return TypeRef(name)
    if mod == "enum":
        return TypeRef(name)
    raise Unsupported(f"{mod}.{name}")


def value_attr(I, o, name):
    if isinstance(o, Arr):
        if name == "shape":
            return tuple(o.shape)
        if name == "size":
            return o.shape[0] if o.ndim == 1 else mul(o.shape[0], o.shape[1])
        if name == "ndim":
            return o.ndim
        if name == "T":
            return n_trans(I, o)
        if name in ("real", "imag"):
            return n_part(name == "imag")(I, [o], {})
        if name == "dtype":
            return TypeRef("float")
        m = {"copy": lambda I, a, k: I.copyarr(o), "dot": lambda I, a, k: n_dot(I, [o] + list(a), k),
             "sum": lambda I, a, k: f_npsum(I, [o] + list(a), k), "all": lambda I, a, k: f_allany(True)(I, [o], k),
             "any": lambda I, a, k: f_allany(False)(I, [o], k), "transpose": lambda I, a, k: n_trans(I, o),
             "round": lambda I, a, k: f_round(I, [o], k), "tolist": lambda I, a, k: f_list(I, [o], k),
             "astype": lambda I, a, k: astype(I, o, a), "reshape": lambda I, a, k: reshape(I, o, a), "ravel": lambda I, a, k: reshape(I, o, (-1,)) if o.ndim == 2 else o,
             "flatten": lambda I, a, k: I.copyarr(reshape(I, o, (-1,)) if o.ndim == 2 else o), "diagonal": lambda I, a, k: n_diag(I, [o], k),
             "trace": lambda I, a, k: n_trace(I, [o], k), "fill": lambda I, a, k: I.setall(o, lambda *j: a[0]),
             "item": lambda I, a, k: o.get(*a),
             "max": lambda I, a, k: n_extreme(">")(I, [o], k), "min": lambda I, a, k: n_extreme("<")(I, [o], k),
             "conj": lambda I, a, k: n_conj(I, [o], k)}
        if name in m:
            return Model("ndarray." + name, strict("ndarray." + name, m[name], {"axis"} if name == "sum" else ()))
    if isinstance(o, VCell):
        if name == "copy":
            return Model("copy", lambda I, a, k: copyval(I, o))
    if isinstance(o, ListObj):
        if name == "copy":
            return Model("copy", lambda I, a, k: copyval(I, o))
        if name == "append":
            def ap(I, a, k):
                I.note_write(o, None)
                o.items.append(a[0])
            return Model("append", ap)
        if name == "extend":
            def ex(I, a, k):
                I.note_write(o, None)
                o.items.extend(I.concrete_items(a[0]))
            return Model("extend", ex)
    if is_num(o) and name in ("real",):
        return o
    if is_num(o) and name == "item":
        return Model("item", lambda I, a, k: o)
    if isinstance(o, EnumMember):
        if name == "name":
            return o.name
    if isinstance(o, Func) and name == "__name__":
        return o.info.name
    if hasattr(o, "model_attr"):
        return o.model_attr(I, name)
    if o is None:
        I.raise_("AttributeError")
    raise Unsupported(f"attribute {name} of {type(o).__name__}")
