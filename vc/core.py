"""Symbolic values, path exploration and proof obligations.

The real source of /repo runs under CPython on these values; see loader.py.
Reals are mathematical reals with a NaN flag, ints are mathematical integers.
"""
import math
import time
import hashlib
from fractions import Fraction

import z3

z3.set_param("smt.random_seed", 1)

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    """The code uses a construct outside the verifier's reach."""


class Infeasible(Exception):
    """The current path's assumptions are contradictory."""


class Budget(Exception):
    """Too many paths or too much time."""


CTX = None



def sym_no(name):
    """creation number of a fresh symbol (also after generalisation over loops), or None"""
    m = name.rpartition("!")[2] if "!" in name else ""
    while m.endswith("_of"):
        m = m[:-3]
    return int(m) if m.isdigit() else None


def ctx():
    return CTX


# ----------------------------------------------------------------- terms

def qval(x):
    """Exact decimal value of a Python number (0.99 means 99/100)."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    f = Fraction(repr(float(x)))
    return z3.Q(f.numerator, f.denominator)


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


def And(*a):
    a = [x for x in a if not is_true(x)]
    if any(is_false(x) for x in a):
        return FALSE
    if not a:
        return TRUE
    return a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if not is_false(x)]
    if any(is_true(x) for x in a):
        return TRUE
    if not a:
        return FALSE
    return a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if is_true(a):
        return FALSE
    if is_false(a):
        return TRUE
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def toreal(t):
    if t.sort() == z3.IntSort():
        if z3.is_int_value(t):
            return z3.Q(t.as_long(), 1)
        return z3.ToReal(t)
    return t


def toint_floor(t):
    """floor of a real term"""
    if t.sort() == z3.IntSort():
        return t
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    if z3.is_rational_value(t):
        return z3.IntVal(math.floor(t.as_fraction()))
    if CTX is not None and CTX.alias:
        q = z3.simplify(t)
        for u, k in CTX.alias:
            if u.eq(q):
                return k
    return z3.ToInt(t)


def simp(t):
    return z3.simplify(t)


def conc_int(t):
    """python int if the term is a literal integer, else None"""
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t) and t.denominator_as_long() == 1:
        return t.numerator_as_long()
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_rational_value(s) and s.denominator_as_long() == 1:
        return s.numerator_as_long()
    return None


def zint(x):
    """z3 Int term (or python int) of an index-like value"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SNum):
        if x.k != "i":
            raise TypeError("only integers can be used as an index")
        c = conc_int(x.t)
        return x.t if c is None else c
    if isinstance(x, z3.ArithRef):
        c = conc_int(x)
        return x if c is None else c
    raise TypeError("not an integer: %r" % (type(x),))


def T(x):
    return z3.IntVal(x) if isinstance(x, int) else x


# ---------------------------------------------------------------- SBool

class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.fork(self.t)

    def _o(self, o):
        o = as_bool(o)
        return o

    def __and__(self, o):
        if is_arr(o):
            return NotImplemented
        return SBool(And(self.t, as_bool(o).t))

    __rand__ = __and__

    def __or__(self, o):
        if is_arr(o):
            return NotImplemented
        return SBool(Or(self.t, as_bool(o).t))

    __ror__ = __or__

    def __xor__(self, o):
        if is_arr(o):
            return NotImplemented
        return SBool(z3.Xor(self.t, as_bool(o).t))

    __rxor__ = __xor__

    def __invert__(self):
        return SBool(Not(self.t))

    def num(self):
        if is_true(self.t):
            return SNum(z3.IntVal(1), FALSE, "i")
        if is_false(self.t):
            return SNum(z3.IntVal(0), FALSE, "i")
        return SNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), FALSE, "i")

    def __eq__(self, o):
        if is_arr(o):
            return NotImplemented
        if isinstance(o, (bool, SBool)):
            o = as_bool(o)
            return SBool(self.t == o.t)
        if o is None or isinstance(o, str):
            return False
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else (NotImplemented if r is NotImplemented else ~r)

    __hash__ = object.__hash__

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def any(self, *a):
        return self

    all = any

    def item(self):
        return self

    def astype(self, dt):
        from .arr import cast_scalar
        return cast_scalar(self, dt)

    def __repr__(self):
        return "SBool(%s)" % self.t


def as_bool(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, bool):
        return SBool(z3.BoolVal(x))
    if isinstance(x, SNum):
        return SBool(Or(x.nan, x.t != 0))
    if isinstance(x, (int, float)):
        return SBool(z3.BoolVal(bool(x)))
    raise Unsupported("as_bool %r" % (type(x),))


def is_arr(x):
    return getattr(x, "_is_sym_array", False)


# ----------------------------------------------------------------- SNum

class SNum:
    """A symbolic number: value term, NaN flag, kind 'i' or 'f'.

    `np` marks numpy scalars (numpy.float64 ...), for type() and isinstance.
    """
    __slots__ = ("t", "nan", "k", "np")

    def __init__(self, t, nan=FALSE, k="f", np=False):
        if k == "f":
            t = toreal(t)
        self.t, self.nan, self.k, self.np = t, nan, k, np

    # conversions ------------------------------------------------------
    def __bool__(self):
        return CTX.fork(Or(self.nan, self.t != 0))

    def __index__(self):
        c = conc_int(self.t)
        if c is None or self.k != "i":
            raise Unsupported("symbolic integer used as a concrete index")
        return c

    def __int__(self):
        c = conc_int(self.t)
        if c is None:
            raise Unsupported("int() of symbolic value")
        return c

    def __float__(self):
        if z3.is_rational_value(self.t) or z3.is_int_value(self.t):
            return float(Fraction(str(self.t)))
        raise Unsupported("float() of symbolic value")

    def __hash__(self):
        c = concrete(self)
        if c is not None:
            return hash(c)
        raise Unsupported("hash of symbolic number")

    def __repr__(self):
        return "SNum(%s)" % (self.t,)

    def __str__(self):
        return "<%s>" % (self.t,)

    def __format__(self, spec):
        return "<sym>"

    # numpy scalar surface ----------------------------------------------
    shape = ()
    ndim = 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def any(self, *a):
        return as_bool(self)

    all = any

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        from .arr import dtype_obj
        return dtype_obj(self.k)

    def astype(self, dt, copy=True):
        from .arr import cast_scalar
        return cast_scalar(self, dt)

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def is_integer(self):
        return SBool(And(Not(self.nan), z3.IsInt(toreal(self.t))))

    def min(self, *a, **k):
        return self

    max = sum = mean = min

    def round(self, nd=0):
        from .arr import round_
        return round_(self, nd)

    def __round__(self, nd=None):
        from .arr import round_
        r = round_(self, 0 if nd is None else nd)
        return to_int(r) if nd is None else r

    def __floor__(self):
        return SNum(toint_floor(self.t), FALSE, "i")

    def __ceil__(self):
        return SNum(-toint_floor(simp(-self.t)), FALSE, "i")

    def __trunc__(self):
        return to_int(self)

    # arithmetic --------------------------------------------------------
    def _bin(self, o, f, div=False):
        if is_arr(o) or isinstance(o, (list, tuple, str, dict)) or o is None:
            return NotImplemented
        if isinstance(o, float) and math.isinf(o):
            return None
        o = as_num(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        r = self._bin(o, n_add)
        return o if r is None else r

    def __radd__(self, o):
        r = self._bin(o, lambda a, b: n_add(b, a))
        return o if r is None else r

    def __sub__(self, o):
        r = self._bin(o, n_sub)
        return -o if r is None else r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: n_sub(b, a))
        return o if r is None else r

    def __mul__(self, o):
        r = self._bin(o, n_mul)
        return self._sign_inf(o) if r is None else r

    def _sign_inf(self, o):
        if CTX.decide(self.t > 0) is True:
            return o
        if CTX.decide(self.t < 0) is True:
            return -o
        raise Unsupported("infinity times a number of unknown sign")

    def __rmul__(self, o):
        r = self._bin(o, lambda a, b: n_mul(b, a))
        return self._sign_inf(o) if r is None else r

    def __truediv__(self, o):
        r = self._bin(o, n_div)
        return num(0.0) if r is None else r

    def __rtruediv__(self, o):
        r = self._bin(o, lambda a, b: n_div(b, a))
        return self._sign_inf(o) if r is None else r

    def __floordiv__(self, o):
        r = self._bin(o, n_floordiv)
        if r is None:
            raise Unsupported("// infinity")
        return r

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: n_floordiv(b, a))

    def __mod__(self, o):
        return self._bin(o, n_mod)

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: n_mod(b, a))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        r = self._bin(o, n_pow)
        if r is None:
            raise Unsupported("power infinity")
        return r

    def __rpow__(self, o):
        r = self._bin(o, lambda a, b: n_pow(b, a))
        if r is None:
            if o > 0 and CTX.decide(self.t > 0) is True:
                return o
            raise Unsupported("infinity power")
        return r

    def __neg__(self):
        return SNum(simp(-self.t), self.nan, self.k, self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        t = self.t
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return SNum(simp(If(t >= 0, t, -t)), self.nan, self.k, self.np)
        d = CTX.decide_quick(t >= 0)
        if d is True:
            return self
        if t.sort() == RS:
            if CTX.decide_quick(t <= 0) is True:
                return SNum(simp(-t), self.nan, self.k, self.np)
            s = rf("absr", t)
            CTX.fact(And(Implies(t >= 0, s == t), Implies(t <= 0, s == -t)))
            return SNum(s, self.nan, self.k, self.np)
        return SNum(z3.If(t >= 0, t, -t), self.nan, self.k, self.np)

    def __invert__(self):
        if self.k != "i":
            raise TypeError("bad operand type for unary ~")
        return SNum(simp(-self.t - 1), self.nan, "i", self.np)

    # comparisons ---------------------------------------------------------
    def _cmp(self, o, f, inf):
        if is_arr(o) or isinstance(o, (list, tuple, str, dict)) or o is None:
            return NotImplemented
        if isinstance(o, float) and math.isinf(o):
            return SBool(And(Not(self.nan), z3.BoolVal(inf(o))))
        o = as_num(o)
        if o is None:
            return NotImplemented
        a, b = self.t, o.t
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        return SBool(And(Not(self.nan), Not(o.nan), f(a, b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda i: i > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda i: i > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda i: i < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda i: i < 0)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, dict, list, tuple)):
            return False
        return self._cmp(o, lambda a, b: a == b, lambda i: False)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, dict, list, tuple)):
            return True
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r


def concrete(x):
    """python value of a literal SNum/SBool, or None"""
    if isinstance(x, SBool):
        s = simp(x.t)
        return True if is_true(s) else False if is_false(s) else None
    if isinstance(x, SNum):
        if not is_false(simp(x.nan)):
            return None
        s = simp(x.t)
        if z3.is_int_value(s):
            v = s.as_long()
            return v if x.k == "i" else float(v)
        if z3.is_rational_value(s):
            f = s.as_fraction()
            return int(f) if x.k == "i" else float(Fraction(f.numerator, f.denominator))
        return None
    return x


def num(x):
    """SNum of a Python number"""
    if isinstance(x, SNum):
        return x
    if isinstance(x, SBool):
        return x.num()
    if isinstance(x, bool):
        return SNum(z3.IntVal(int(x)), FALSE, "i")
    if isinstance(x, int):
        return SNum(z3.IntVal(x), FALSE, "i")
    if isinstance(x, float):
        if math.isnan(x):
            return SNum(z3.RealVal(0), TRUE, "f")
        if math.isinf(x):
            raise Unsupported("infinite constant")
        return SNum(qval(x), FALSE, "f")
    if isinstance(x, Fraction):
        return SNum(qval(x), FALSE, "f")
    if isinstance(x, z3.ArithRef):
        return SNum(x, FALSE, "i" if x.sort() == z3.IntSort() else "f")
    raise Unsupported("not a number: %r" % (type(x),))


def as_num(x):
    if isinstance(x, (SNum, SBool, bool, int, float, Fraction, z3.ArithRef)):
        return num(x)
    v = getattr(x, "_as_snum", None)
    if v is not None:
        return v()
    return None


def NAN():
    return SNum(z3.RealVal(0), TRUE, "f")


def _kk(a, b):
    return "i" if a.k == "i" and b.k == "i" else "f"


def _tt(a, b):
    if a.k == b.k:
        return a.t, b.t
    return toreal(a.t), toreal(b.t)


def _res(t, a, b, k, extra=FALSE):
    return SNum(t, Or(a.nan, b.nan, extra), k, a.np or b.np)


def lit(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def n_add(a, b):
    x, y = _tt(a, b)
    if lit(x) and lit(y):
        return _res(simp(x + y), a, b, _kk(a, b))
    if lit(x) and is_zero(x):
        return _res(y, a, b, _kk(a, b))
    if lit(y) and is_zero(y):
        return _res(x, a, b, _kk(a, b))
    return _res(simp(x + y) if _kk(a, b) == "i" else x + y, a, b, _kk(a, b))


def is_zero(t):
    return lit(t) and Fraction(str(t)) == 0


def is_one(t):
    return lit(t) and Fraction(str(t)) == 1


def n_sub(a, b):
    x, y = _tt(a, b)
    if lit(y) and is_zero(y):
        return _res(x, a, b, _kk(a, b))
    if lit(x) and lit(y):
        return _res(simp(x - y), a, b, _kk(a, b))
    return _res(simp(x - y) if _kk(a, b) == "i" else x - y, a, b, _kk(a, b))


def n_mul(a, b):
    x, y = _tt(a, b)
    if lit(x) and lit(y):
        return _res(simp(x * y), a, b, _kk(a, b))
    if is_one(x):
        return _res(y, a, b, _kk(a, b))
    if is_one(y):
        return _res(x, a, b, _kk(a, b))
    return _res(simp(x * y) if _kk(a, b) == "i" else x * y, a, b, _kk(a, b))


def n_div(a, b):
    x, y = toreal(a.t), toreal(b.t)
    if lit(y):
        if is_zero(y):
            if not (a.np or b.np):
                raise ZeroDivisionError("division by zero")
            return SNum(z3.RealVal(0), TRUE, "f", True)
        if is_one(y):
            return _res(x, a, b, "f")
        if lit(x):
            return _res(simp(x / y), a, b, "f")
        return _res(x / y, a, b, "f")
    CTX.division(y)
    return _res(x / y, a, b, "f", y == 0)


def factors(t):
    if z3.is_mul(t):
        return [f for c in t.children() for f in factors(c)]
    return [t]


def exact_div(x, y):
    """integer term q with x == q*y when y divides x syntactically, else None"""
    if z3.is_add(x):
        qs = [exact_div(c, y) for c in x.children()]
        if any(q is None for q in qs):
            return None
        return simp(z3.Sum(*qs)) if len(qs) > 1 else qs[0]
    fx, fy = factors(x), factors(y)
    cx, cy = 1, 1
    for f in fx:
        if z3.is_int_value(f):
            cx *= f.as_long()
    for f in fy:
        if z3.is_int_value(f):
            cy *= f.as_long()
    rx = [f for f in fx if not z3.is_int_value(f)]
    for f in fy:
        if z3.is_int_value(f):
            continue
        k = next((i for i, g in enumerate(rx) if g.eq(f)), None)
        if k is None:
            return None
        del rx[k]
    if cy == 0 or cx % cy:
        return None
    q = z3.IntVal(cx // cy)
    for f in rx:
        q = q * f
    return simp(q)


def n_floordiv(a, b):
    if _kk(a, b) == "i":
        x, y = a.t, b.t
        if not lit(y) and not lit(x) and CTX.decide_quick(y > 0) is True:
            q = exact_div(simp(x), simp(y))
            if q is not None:
                return _res(q, a, b, "i")
        if lit(y):
            if is_zero(y):
                raise ZeroDivisionError("integer division or modulo by zero")
            if y.as_long() > 0:
                return _res(simp(x / y), a, b, "i")
            return _res(simp((-x) / (-y)), a, b, "i")
        if CTX.decide(y > 0) is True:
            return _res(simp(x / y), a, b, "i")
        return _res(If(y > 0, x / y, (-x) / (-y)), a, b, "i", y == 0)
    x, y = toreal(a.t), toreal(b.t)
    return _res(toreal(toint_floor(simp(x / y))), a, b, "f", y == 0)


def n_mod(a, b):
    if _kk(a, b) == "i":
        x, y = a.t, b.t
        if lit(y) and y.as_long() > 0:
            return _res(simp(x % y), a, b, "i")
        if not lit(y) and not lit(x) and CTX.decide_quick(y > 0) is True and exact_div(simp(x), simp(y)) is not None:
            return _res(z3.IntVal(0), a, b, "i")
        if not lit(y) and CTX.decide(y > 0) is True:
            return _res(x % y, a, b, "i")
        q = n_floordiv(a, b)
        return _res(x - q.t * y, a, b, "i", q.nan)
    x, y = toreal(a.t), toreal(b.t)
    q = toreal(toint_floor(simp(x / y)))
    return _res(x - q * y, a, b, "f", y == 0)


def n_pow(a, b):
    e = concrete(b)
    if e is not None:
        if e == int(e) and abs(e) <= 12:
            e = int(e)
            if e == 0:
                return num(1.0) if _kk(a, b) == "f" else num(1)
            k = _kk(a, b)
            x = toreal(a.t) if k == "f" else a.t
            if e > 0:
                t = x
                for _ in range(e - 1):
                    t = t * x
                return _res(simp(t) if lit(x) else t, a, b, k)
            if k == "i":
                raise ValueError("Integers to negative integer powers are not allowed.")
            t = x
            for _ in range(-e - 1):
                t = t * x
            if lit(x):
                return _res(simp(1 / t), a, b, "f")
            CTX.division(x)
            return _res(1 / t, a, b, "f", x == 0)
        if e == 0.5:
            return f_sqrt(a)
    return f_pow(a, b)


def to_int(x):
    """Python int(): truncation towards zero"""
    if isinstance(x, SBool):
        return x.num()
    x = num(x)
    if x.k == "i":
        return SNum(x.t, x.nan, "i", False)
    if not is_false(x.nan):
        if bool(SBool(x.nan)):
            raise ValueError("cannot convert float NaN to integer")
    t = x.t
    if lit(t):
        return num(int(Fraction(str(t))))
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return SNum(t.arg(0), FALSE, "i")
    if CTX.decide(z3.IsInt(t)) is True or CTX.decide(t >= 0) is True:
        return SNum(toint_floor(t), FALSE, "i")
    return SNum(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), FALSE, "i")


def to_float(x):
    if isinstance(x, SBool):
        x = x.num()
    x = num(x)
    return SNum(toreal(x.t), x.nan, "f", False)


# ------------------------------------------- special functions of the reals

_FUNCS = {}


def UF(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    f = _FUNCS.get(key)
    if f is None:
        f = _FUNCS[key] = z3.Function(name, *sorts)
    return f


RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def rf(name, *args):
    return UF(name, *([RS] * (len(args) + 1)))(*[toreal(a) for a in args])


def f_sqrt(a):
    x = toreal(a.t)
    if lit(x):
        f = Fraction(str(x))
        if f >= 0:
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return SNum(z3.Q(p, q), a.nan, "f", True)
        else:
            return NAN()
    s = rf("sqrt", x)
    CTX.fact(Implies(x >= 0, And(s >= 0, s * s == x)))
    CTX.fact(Implies(x > 0, s > 0))
    nn = FALSE if CTX.decide_quick(x >= 0) is True else x < 0
    return SNum(s, Or(a.nan, nn), "f", True)


def f_exp(a):
    x = toreal(a.t)
    s = rf("exp", x)
    CTX.fact(s > 0)
    return SNum(s, a.nan, "f", True)


def f_log(a, name="ln"):
    x = toreal(a.t)
    if lit(x) and Fraction(str(x)) == 1:
        return SNum(z3.RealVal(0), a.nan, "f", True)
    s = rf(name, x)
    CTX.fact(And(Implies(x > 1, s > 0), Implies(And(x > 0, x < 1), s < 0), Implies(x == 1, s == 0)))
    # the logarithm of zero is infinite: an unspecified number that is not NaN (isfinite of it is unsupported)
    nn = FALSE if CTX.decide_quick(x > 0) is True else x < 0
    return SNum(s, Or(a.nan, nn), "f", True)


def f_pow(a, b):
    x, y = toreal(a.t), toreal(b.t)
    if lit(x) and Fraction(str(x)) == 1:
        return SNum(z3.RealVal(1), Or(a.nan, b.nan), "f", True)
    s = rf("pow", x, y)
    CTX.fact(Implies(x > 0, s > 0))
    CTX.fact(Implies(And(x == 0, y > 0), s == 0))
    nn = x < 0
    if CTX.decide_quick(x >= 0) is True:
        nn = FALSE
    zz = FALSE if (CTX.decide_quick(x > 0) is True or CTX.decide_quick(y > 0) is True) else And(x == 0, y <= 0)
    return SNum(s, Or(a.nan, b.nan, nn, zz), "f", True)


def f_trig(name):
    def f(a):
        x = toreal(a.t)
        if is_zero(x):
            return SNum(z3.RealVal(1 if name == "cos" else 0), a.nan, "f", True)
        c, s = rf("cos", x), rf("sin", x)
        CTX.fact(c * c + s * s == 1)
        return SNum(c if name == "cos" else s, a.nan, "f", True)
    return f


f_cos, f_sin = f_trig("cos"), f_trig("sin")


_NL, _RA = {}, {}
_UNINT = z3.Z3_OP_UNINTERPRETED


def nonlinear(t):
    """does the term multiply, divide by or raise non-literals"""
    r = _NL.get(t.get_id())
    if r is not None and r[0].eq(t):
        return r[1]
    k = t.decl().kind() if z3.is_app(t) else None
    ch = t.children()
    nl = k == z3.Z3_OP_MUL and sum(0 if lit(c) else 1 for c in ch) > 1 or k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not lit(ch[1]) or k == z3.Z3_OP_POWER
    nl = bool(nl) or any(nonlinear(c) for c in ch)
    _NL[t.get_id()] = (t, nl)
    return nl


SPECIAL = ("sqrt", "pow", "exp", "ln", "log10", "gamma", "cos", "sin", "interp")
_SP = {}


def special(t):
    """does the term mention a special function"""
    r = _SP.get(t.get_id())
    if r is None or not r[0].eq(t):
        v = z3.is_app(t) and t.decl().kind() == _UNINT and t.decl().name().startswith(SPECIAL) and t.num_args() > 0 or any(special(c) for c in t.children())
        r = _SP[t.get_id()] = (t, v)
    return r[1]


def pieces(t):
    """conjuncts of t, also below disjunctions"""
    if z3.is_and(t):
        return [p for c in t.children() for p in pieces(c)]
    if z3.is_or(t):
        ch = t.children()
        for i, c in enumerate(ch):
            if z3.is_and(c):
                rest = ch[:i] + ch[i + 1:]
                return [p for x in c.children() for p in pieces(Or(*rest, x))]
    return [t]


def real_atoms(t):
    """ids of the real-valued uninterpreted applications in t"""
    r = _RA.get(t.get_id())
    if r is not None and r[0].eq(t):
        return r[1]
    out = set()
    for c in t.children():
        out |= real_atoms(c)
    if z3.is_app(t) and t.decl().kind() == _UNINT and t.sort() == RS:
        out.add(t.get_id())
    _RA[t.get_id()] = (t, frozenset(out))
    return _RA[t.get_id()][1]


# ----------------------------------------------------------------- context

class Uni:
    """A universally quantified assumption, instantiated on demand."""
    __slots__ = ("doms", "fn", "done", "tags")

    def __init__(self, doms, fn, tags=None):
        self.tags = tags        # per variable: tag of the index terms worth trying (None: all)
        self.doms = doms        # list of exclusive upper bounds (python int or z3 Int)
        self.fn = fn            # fn(*index terms) -> z3 Bool
        self.done = set()


class Ctx:
    """One path through the program."""

    def __init__(self, run, prefix):
        self.run = run                      # Run
        self.decisions = list(prefix)
        self.pos = 0
        self.alts = []
        self.pc = []
        self.facts = []
        self.nl, self.lin, self.stack = [], [], []
        self._factkeys = set()
        self.unis = []
        self.pool = {}                      # key -> (term, depth)
        self.tagged = {}
        self.depth = 0
        self.n = 0
        self.tokens = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.solver.set("rlimit", run.feas_rl)
        self.inputs = {}
        self.divs = []
        self.memo_dec = {}
        self.loopdepth = 0
        self.loops = {}
        self.log = []
        self.inst_rounds = 2
        self.calls = []
        self.sandbox = 0
        self.tokdepth = 0
        self.memo_lib = {}
        self.tokmemo = {}
        self.alias = []             # (real term, Int term known to be its floor)
        self.mute = False
        self.cur_loop = None
        self.loops_active = []
        self.cut = None             # a generic loop was left early: what its earlier iterations did is unknown
        self.loop_carried = []
        self.eqmemo = {}

    def whole(self):
        if self.cut:
            raise Unsupported(self.cut)

    # -- names ---------------------------------------------------------
    def fresh(self, p):
        self.n += 1
        return "%s!%d" % (p, self.n)

    def fresh_int(self, p="k", pool=True):
        c = z3.Int(self.fresh(p))
        if pool:
            self.touch(c)
        return c

    def fresh_real(self, p="r"):
        return z3.Real(self.fresh(p))

    # -- assumptions -----------------------------------------------------
    def assume(self, t):
        t = as_bool(t).t
        if is_true(t):
            return
        self.pc.append(t)
        self.add(t)
        self.memo_dec.clear()
        if is_false(t):
            raise Infeasible()

    def add(self, t):
        """to the linear solver, or to the list of nonlinear facts"""
        for p in ([t] if not nonlinear(t) else pieces(t)):
            if nonlinear(p):
                self.nl.append(p)
            else:
                self.solver.add(p)
                self.lin.append(p)

    def fact(self, t):
        if is_true(t) or self.mute:
            return
        k = t.get_id()
        if k in self._factkeys:
            return
        self._factkeys.add(k)
        self.facts.append(t)
        self.add(t)

    def push(self, t):
        """assume t until pop()"""
        self.stack.append((len(self.pc), len(self.facts), len(self.nl), len(self.lin), set(self._factkeys), dict(self.memo_dec), getattr(self, "_nf", None), [set(u.done) for u in self.unis]))
        self.solver.push()
        self.pc.append(t)
        self.add(t)
        self.memo_dec = {}
        self._nf = None

    def pop(self):
        p, f, n, l, self._factkeys, self.memo_dec, self._nf, done = self.stack.pop()
        self.solver.pop()
        del self.pc[p:], self.facts[f:], self.nl[n:], self.lin[l:]
        for u, d in zip(self.unis, done):
            u.done = d
        for u in self.unis[len(done):]:
            u.done = set()

    def uni(self, doms, fn, tags=None):
        if self.mute:
            return
        self.unis.append(Uni([zint(d) for d in doms], fn, tags))

    def touch(self, t, tag=None):
        """add an index term to the instantiation pool"""
        if self.mute:
            return
        if isinstance(t, int):
            t = z3.IntVal(t)
        t = simp(t)
        k = t.get_id()
        if tag is not None:
            self.tagged.setdefault(tag, {}).setdefault(k, (t, self.depth))
        if k in self.pool:
            return
        if self.depth > self.run.depth_max or len(self.pool) > self.run.pool_max:
            return
        self.pool[k] = (t, self.depth)

    def instantiate(self):
        if self.instantiating:
            return
        sig = (len(self.pool), len(self.unis), sum(len(x) for x in self.tagged.values()), self.run.pool2, self.run.depth_max, self.inst_rounds)
        if sig == self.inst_sig:
            return
        self.instantiating = True
        try:
            if self._instantiate():
                self.inst_sig = (len(self.pool), len(self.unis), sum(len(x) for x in self.tagged.values()), self.run.pool2, self.run.depth_max, self.inst_rounds)
        finally:
            self.instantiating = False

    instantiating = False
    inst_sig = None

    def _instantiate(self):
        for rnd in range(self.inst_rounds):
            before = len(self.pool)
            pool = list(self.pool.values())
            new = 0
            # terms for several variables at once: the program's own first, latest first
            pool2 = sorted(reversed(pool), key=lambda x: x[1])[: self.run.pool2]
            for u in list(self.unis):
                cands = []
                for vi, d in enumerate(u.doms):
                    tag = u.tags[vi] if u.tags else None
                    if isinstance(d, int):
                        cands.append([(z3.IntVal(i), None, 0) for i in range(max(d, 0))])
                    elif tag is not None:
                        cands.append([(t, d, dep) for t, dep in list(self.tagged.get(tag, {}).values()) if dep <= self.run.depth_max])
                    else:
                        cands.append([(t, d, dep) for t, dep in (pool if len(u.doms) == 1 else pool2)])
                combos = [[]]
                for c in cands:
                    combos = [x + [y] for x in combos for y in c]
                for co in combos:
                    key = tuple(t.get_id() for t, _, _ in co)
                    if key in u.done:
                        continue
                    u.done.add(key)
                    new += 1
                    guards = []
                    for t, d, _ in co:
                        if d is not None:
                            guards += [t >= 0, t < d]
                    g = simp(And(*guards)) if guards else TRUE
                    if is_false(g):
                        continue
                    depth0, self.depth = self.depth, 1 + max([x[2] for x in co] + [0])
                    self.sandbox += 1
                    try:
                        body = u.fn(*[x[0] for x in co])
                    except Unsupported:
                        continue            # dropping an assumption is sound
                    finally:
                        self.depth = depth0
                        self.sandbox -= 1
                    self.fact(simp(Implies(g, body)) if len(co) > 1 else Implies(g, body))
            if not new and len(self.pool) == before:
                return True
        return False

    # -- decisions -------------------------------------------------------
    def _check(self, *extra):
        t0 = time.time()
        self.instantiate()
        hard = any(nonlinear(e) for e in extra)
        r = z3.unknown
        if not hard:
            r = self.solver.check(*extra)
            self.model = self.solver.model if r == z3.sat else None
        if r != z3.unsat and (self.nl or hard):
            nl = self.relevant_nl(extra, 1) if hard or not extra or any(special(e) for e in extra) else []
            if (nl or hard) and self.run.nl_ms:
                s = z3.Solver()
                s.set("timeout", self.run.nl_ms if self.run.nl_fail < 10 else 60)
                s.add(*self.lin)
                s.add(*nl)
                s.add(*extra)
                r = s.check()
                self.run.nl_fail = 0 if r == z3.unsat else self.run.nl_fail + 1
                self.model = s.model if r == z3.sat else None
        self.run.solver_time += time.time() - t0
        return r

    def relevant_nl(self, extra, rounds=2):
        if not extra:
            return list(self.nl)
        atoms = set()
        for e in extra:
            atoms |= real_atoms(e)
        if not atoms:
            return []
        keep, left = [], [(f, real_atoms(f)) for f in self.nl]
        for _ in range(rounds):
            new, rest = set(), []
            for f, a in left:
                if a & atoms:
                    keep.append(f)
                    new |= a
                else:
                    rest.append((f, a))
            left = rest
            if not new - atoms:
                break
            atoms |= new
        return keep

    def decide_quick(self, t):
        t = simp(t)
        if is_true(t):
            return True
        if is_false(t):
            return False
        return self.decide(t)

    def decide(self, t):
        """True/False if the path settles the condition, else None."""
        t = simp(t)
        if is_true(t):
            return True
        if is_false(t):
            return False
        if self.mute:
            return None
        k = (t.get_id(), len(self.pc))
        if k in self.memo_dec:
            return self.memo_dec[k][0]
        self.run.tick()
        r = None
        if nonlinear(t):
            r = self.by_sign(t)
            if r is None and self.run.nl_ms == 0:
                self.memo_dec[k] = (None, t)
                return None
        if r is not None:
            pass
        elif self._check(Not(t)) == z3.unsat:
            r = True
        elif self._check(t) == z3.unsat:
            r = False
        self.memo_dec[k] = (r, t)
        return r

    def sign(self, t, d=0):
        """(may be negative, may be zero, may be positive) by the structure of a product or quotient"""
        if lit(t):
            f = Fraction(str(t))
            return (f < 0, f == 0, f > 0)
        ANY = (True, True, True)
        if d > 12:
            return ANY
        k = t.decl().kind()
        ch = t.children()
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            r = (False, False, True)
            counts = {}
            for i, c in enumerate(ch):
                counts.setdefault((c.get_id(), k == z3.Z3_OP_DIV and i == 1), [c, 0])[1] += 1
            for (_, den), (c, n) in counts.items():
                s = self.sign(c, d + 1)
                if den and s[1]:
                    return ANY
                if n % 2 == 0:
                    s = (False, s[1], s[0] or s[2])
                r = (r[0] and s[2] or r[2] and s[0], r[1] or s[1], r[0] and s[0] or r[2] and s[2])
            return r
        if k == z3.Z3_OP_ADD:
            ss = [self.sign(c, d + 1) for c in ch]
            if not any(s[0] for s in ss):
                return (False, all(s[1] for s in ss), True)
            if not any(s[2] for s in ss):
                return (True, all(s[1] for s in ss), False)
        if k == z3.Z3_OP_ITE:
            a, b = self.sign(ch[1], d + 1), self.sign(ch[2], d + 1)
            return tuple(x or y for x, y in zip(a, b))
        if k == z3.Z3_OP_UMINUS:
            return self.sign(ch[0], d + 1)[::-1]
        if k == _UNINT:
            nm = t.decl().name()
            if nm == "exp":
                return (False, False, True)
            if nm == "absr":
                s = self.sign(ch[0], d + 1)
                return (False, s[1], s[0] or s[2])
            if nm == "sqrt":
                s = self.sign(ch[0], d + 1)
                if not s[0]:
                    return (False, s[1], True)
        if not nonlinear(t) and self.run.nl_ms is not None:
            z = self.decide(t > 0), self.decide(t < 0), self.decide(t == 0)
            return (z[1] is not False, z[2] is not False, z[0] is not False)
        return ANY

    def by_sign(self, t):
        if z3.is_not(t):
            r = self.by_sign(t.arg(0))
            return None if r is None else not r
        if not (z3.is_le(t) or z3.is_ge(t) or z3.is_lt(t) or z3.is_gt(t) or z3.is_eq(t)):
            return None
        a, b = t.arg(0), t.arg(1)
        if a.sort() == BS:
            return None
        if lit(a) and is_zero(a):
            a, b, flip = b, a, True
        elif lit(b) and is_zero(b):
            flip = False
        else:
            return None
        n, z, p = self.sign(a)
        if flip:
            n, p = p, n
        if z3.is_eq(t):
            return False if not z else (True if not n and not p else None)
        if z3.is_le(t):
            return True if not p else (False if not n and not z else None)
        if z3.is_ge(t):
            return True if not n else (False if not p and not z else None)
        if z3.is_lt(t):
            return True if not p and not z else (False if not n else None)
        return True if not n and not z else (False if not p else None)

    def fork(self, t):
        t = simp(t)
        if is_true(t):
            return True
        if is_false(t):
            return False
        if self.mute:
            return True
        if self.sandbox:
            d = self.decide(t)
            if d is None:
                raise Unsupported("data-dependent branch inside a generic element")
            return d
        self.run.tick()
        h = t.hash()
        if self.pos < len(self.decisions):
            d, h0 = self.decisions[self.pos]
            if h0 is not None and h0 != h:
                raise Unsupported("path replay diverged")
            self.pos += 1
            self.assume(SBool(t if d else Not(t)))
            return d
        d = self.decide(t)
        if d is None:
            self.alts.append(self.decisions[: self.pos] + [(False, h)])
            d = True
        self.decisions = self.decisions[: self.pos] + [(d, h)]
        self.pos += 1
        self.assume(SBool(t if d else Not(t)))
        return d

    def division(self, y):
        pass

    def equal_under(self, guard, a, b):
        """are two elements (value and NaN flag) equal on this path, under the guard?"""
        from . import prove
        return prove.equal_elements(self, guard, a, b)

    def feasible(self):
        return self._check() != z3.unsat


class Run:
    """Exploration of all paths of one contract."""

    def __init__(self, name, sizes=None, max_paths=200, budget=60.0, feas_rl=400000, prove_ms=5000, pool_max=60, cvc5=True):
        self.name = name
        self.sizes = sizes
        self.max_paths, self.budget = max_paths, budget
        self.feas_rl, self.prove_ms, self.pool_max = feas_rl, prove_ms, pool_max
        self.solver_time = 0.0
        self.obls = []
        self.paths = 0
        self.t0 = time.time()
        self.cvc5 = cvc5
        self.cvc5_calls, self.cvc5_max = 0, 6
        self.completed = 0
        self.pending = 0
        self.canary = None
        self.loops_seen = {}
        self.kinds = {}
        self.depth_max, self.pool2, self.nl_ms, self.nl_fail = 1, 20, 300, 0

    def tick(self):
        if time.time() - self.t0 > self.budget:
            raise Budget("time budget of %.0fs exceeded" % self.budget)

    def explore(self, fn):
        global CTX
        work = [[]]
        while work:
            if self.paths >= self.max_paths:
                raise Budget("more than %d paths" % self.max_paths)
            self.tick()
            prefix = work.pop()
            c = Ctx(self, prefix)
            CTX = c
            self.paths += 1
            try:
                fn(c)
                self.completed += 1
            except Infeasible:
                pass
            finally:
                CTX = None
            work.extend(c.alts)
        return self
