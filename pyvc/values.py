"""Symbolic values. Scalars are python int / Fraction / bool or z3 expressions (floats are mathematical reals)."""
from fractions import Fraction

import z3


class Unsupported(Exception):
    """The code uses something outside the supported subset: no obligation can be generated."""


class NoSummary(Exception):
    pass


V = z3.DeclareSort("V")  # opaque array contents


class Inf:
    def __init__(self, sign):
        self.sign = sign

    def __repr__(self):
        return f"Inf({self.sign})"


class Ext:
    """-inf or a real: isninf (bool-like), val"""

    def __init__(self, isninf, val):
        self.isninf, self.val = isninf, val


class Str:
    """opaque string"""


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return f"{self.cls}.{self.name}"


def is_z(x):
    return isinstance(x, z3.ExprRef)


def is_num(x):
    return (isinstance(x, (int, Fraction)) and not isinstance(x, bool)) or (
        is_z(x) and (x.sort() == z3.RealSort() or x.sort() == z3.IntSort()))


def is_intlike(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_z(x) and x.sort() == z3.IntSort())


def is_boollike(x):
    return isinstance(x, bool) or (is_z(x) and x.sort() == z3.BoolSort())


def Z(x):
    """python scalar -> z3"""
    if is_z(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator)) / z3.RealVal(str(x.denominator)) if x.denominator != 1 else z3.RealVal(str(x.numerator))
    raise Unsupported(f"not a scalar: {x!r}")


def R(x):
    """scalar -> z3 Real"""
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, int):
        return z3.RealVal(str(x))
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if is_z(x):
        if x.sort() == z3.IntSort():
            if z3.is_int_value(x):
                return z3.RealVal(str(x.as_long()))
            return z3.ToReal(x)
        if x.sort() == z3.RealSort():
            return x
        if x.sort() == z3.BoolSort():
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"not a number: {x!r}")


class Cx:
    """complex number: real and imaginary part"""

    def __init__(self, re, im):
        self.re, self.im = re, im


def cx(x):
    return x if isinstance(x, Cx) else Cx(x, 0)


def both_int(a, b):
    return is_intlike(a) and is_intlike(b)


def conc(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def add(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(add(a.re, b.re), add(a.im, b.im))
    if conc(a) and conc(b):
        return a + b
    if conc(a) and a == 0 and is_num(b):
        return b if isinstance(a, int) or not is_intlike(b) else R(b)
    if conc(b) and b == 0 and is_num(a):
        return a if isinstance(b, int) or not is_intlike(a) else R(a)
    if both_int(a, b):
        return Z(a) + Z(b)
    return R(a) + R(b)


def sub(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(sub(a.re, b.re), sub(a.im, b.im))
    if conc(a) and conc(b):
        return a - b
    if conc(b) and b == 0 and is_num(a):
        return a if isinstance(b, int) or not is_intlike(a) else R(a)
    if both_int(a, b):
        return Z(a) - Z(b)
    return R(a) - R(b)


def mul(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(sub(mul0(a.re, b.re), mul0(a.im, b.im)), add(mul0(a.re, b.im), mul0(a.im, b.re)))
    if conc(a) and conc(b):
        return a * b
    if both_int(a, b):
        return Z(a) * Z(b)
    if conc(a) and a == 1:
        return R(b)
    if conc(b) and b == 1:
        return R(a)
    return R(a) * R(b)


def mul0(a, b):
    return 0 if (conc(a) and a == 0) or (conc(b) and b == 0) else mul(a, b)


def neg(a):
    if isinstance(a, Cx):
        return Cx(neg(a.re), neg(a.im))
    if conc(a):
        return -a
    return -a


def truediv(a, b):
    """caller must have produced the b != 0 obligation"""
    if isinstance(a, Cx) and not isinstance(b, Cx):
        return Cx(truediv(a.re, b), truediv(a.im, b))
    if isinstance(b, Cx):
        raise Unsupported("division by a complex number")
    if conc(a) and conc(b) and b != 0:
        return Fraction(a) / Fraction(b)
    if conc(b) and b == 1:
        return R(a)
    return R(a) / R(b)


def lift_int(a):
    return Z(a)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if both_int(a, b):
        return z3.If(c, Z(a), Z(b))
    if is_num(a) and is_num(b):
        return z3.If(c, R(a), R(b))
    if is_boollike(a) and is_boollike(b):
        return z3.If(c, Z(a), Z(b))
    raise Unsupported("ite of incompatible values")


def AND(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            ys.append(x)
    if not ys:
        return True
    return z3.And(*ys) if len(ys) > 1 else ys[0]


def OR(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            ys.append(x)
    if not ys:
        return False
    return z3.Or(*ys) if len(ys) > 1 else ys[0]


def NOT(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def cmp(op, a, b):
    if isinstance(a, Ext) and isinstance(b, Inf):
        a, b, op = b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
    if isinstance(b, Ext) and not isinstance(a, Ext):
        if isinstance(a, Inf):
            if a.sign > 0:
                return {"<": False, "<=": False, ">": True, ">=": True, "==": False, "!=": True}[op]
            return {"<": NOT(b.isninf), "<=": True, ">": False, ">=": b.isninf, "==": b.isninf, "!=": NOT(b.isninf)}[op]
        if op in (">", ">="):
            return OR(b.isninf, cmp(op, a, b.val))
        if op in ("<", "<=", "=="):
            return AND(NOT(b.isninf), cmp(op, a, b.val))
        return OR(b.isninf, cmp(op, a, b.val))
    if isinstance(a, Ext) and not isinstance(b, Ext):
        return cmp({"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op), b, a)
    if isinstance(a, Ext):
        if op == "==":
            return OR(AND(a.isninf, b.isninf), AND(NOT(a.isninf), NOT(b.isninf), cmp("==", a.val, b.val)))
        raise Unsupported("comparison of two extended reals")
    if isinstance(a, Inf) or isinstance(b, Inf):
        sa = a.sign if isinstance(a, Inf) else 0
        sb = b.sign if isinstance(b, Inf) else 0
        if sa == sb:
            raise Unsupported("inf vs inf")
        return {"<": sa < sb, "<=": sa < sb, ">": sa > sb, ">=": sa > sb, "==": False, "!=": True}[op]
    if conc(a) and conc(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if both_int(a, b):
        a, b = Z(a), Z(b)
    else:
        a, b = R(a), R(b)
    return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
            "==": lambda: a == b, "!=": lambda: a != b}[op]()


class Obj:
    """instance of a repository class (or an abstract object with model methods)"""

    def __init__(self, cls, name=None):
        self.cls, self.attrs, self.name = cls, {}, name
        self.model = None  # dict name -> python callable(I, self, args, kwargs) for abstract objects

    def __repr__(self):
        return f"<Obj {getattr(self.cls, 'name', self.cls)}>"


class ListObj:
    def __init__(self, items):
        self.items = list(items)


class SymSeq:
    """immutable sequence of symbolic length; at(i) gives element i"""

    def __init__(self, length, at, kind="list"):
        self.length, self.at, self.kind = length, at, kind


class FiltSeq:
    """the elements at(i), 0 <= i < length, for which cond(i) holds (a filtered comprehension of symbolic length)"""

    def __init__(self, length, at, cond):
        self.length, self.at, self.cond = length, at, cond


class RangeVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


DECIDE = [lambda c: None]  # hook: decides an integer condition under the current path, or None


def decide(c):
    if isinstance(c, bool):
        return c
    r = DECIDE[0](c)
    return c if r is None else r


class Arr:
    """numpy array: shape (tuple of int-likes), content at(*idx) -> scalar; content replaced on mutation, identity kept.
    Views refer to a base array and an axis map (start, step, position), so that writes through them reach the base."""

    def __init__(self, shape, at, owner=None, dtype="real"):
        self.shape, self._at, self.owner, self.dtype = tuple(shape), at, owner, dtype
        self.base = None
        self.axes = None

    @property
    def ndim(self):
        return len(self.shape)

    def snap(self):
        """the present content as a pure function (later writes do not affect it)"""
        if self.base is not None:
            f = self.base.snap()
            return lambda *j: f(*self.to_base(j))
        return self._at

    def get(self, *idx):
        return self.snap()(*idx)

    def to_base(self, idx):
        out = []
        for ax in self.axes:
            if ax[0] == "fix":
                out.append(ax[1])
            else:
                _, start, step, pos = ax
                out.append(add(start, idx[pos]) if step == 1 else sub(start, idx[pos]))
        return tuple(out)

    def from_base(self, j):
        """(membership condition, view index) of base index j"""
        c, k = True, [None] * self.ndim
        for ax, jj in zip(self.axes, j):
            if ax[0] == "fix":
                c = AND(c, decide(cmp("==", jj, ax[1])))
            else:
                _, start, step, pos = ax
                v = sub(jj, start) if step == 1 else sub(start, jj)
                k[pos] = v
                c = AND(c, decide(cmp(">=", v, 0)), decide(cmp("<", v, self.shape[pos])))
            if c is False:
                return False, None
        return c, [0 if x is None else x for x in k]

    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a


class Strided(Arr):
    """every step-th element of a one-dimensional array; read only in this model"""

    def __init__(self, of, start, step, length):
        super().__init__((length,), None, owner=of.owner, dtype=of.dtype)
        self.of, self.start, self.step = of, start, step

    def snap(self):
        f = self.of.snap()
        return lambda i: f(add(self.start, mul(self.step, i)))

    def root(self):
        return self.of.root()


def view(base, axes, shape):
    if base.base is not None:  # flatten views of views
        naxes, used = [], {}
        for ax in base.axes:
            if ax[0] == "fix":
                naxes.append(ax)
            else:
                _, start, step, pos = ax
                outer = axes[pos]
                if outer[0] == "fix":
                    naxes.append(("fix", add(start, outer[1]) if step == 1 else sub(start, outer[1])))
                else:
                    _, s2, st2, p2 = outer
                    naxes.append(("ax", add(start, s2) if step == 1 else sub(start, s2), step * st2, p2))
        base, axes = base.base, naxes
    v = Arr(shape, None, owner=base.owner, dtype=base.dtype)
    v.base, v.axes = base, list(axes)
    return v


class VCell:
    """array-like with opaque content"""

    def __init__(self, content, owner=None):
        self.content, self.owner = content, owner


class Func:
    def __init__(self, info, closure=None):
        self.info, self.closure = info, closure


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class ClassRef:
    def __init__(self, info):
        self.info = info


class Model:
    """python-side model of a library function: fn(I, args, kwargs)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class TypeRef:
    def __init__(self, name):
        self.name = name


class ModRef:
    def __init__(self, name):
        self.name = name


class GenVal:
    """generator expression: evaluated lazily by its consumer"""

    def __init__(self, seq):
        self.seq = seq
