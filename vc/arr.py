"""Symbolic arrays with numpy semantics (symbolic or concrete shapes)."""
import math
from fractions import Fraction
import z3
from . import core
from .core import (SNum, SBool, Unsupported, And, Or, Not, If, Implies, TRUE, FALSE, num, as_num, as_bool,
                   zint, T, simp, conc_int, toreal, toint_floor, concrete, NAN, to_int, to_float)


def C():
    return core.CTX


# ---------------------------------------------------------------- dtypes

class DType:
    def __init__(self, kind, name, mro=()):
        self.kind, self.name, self.mro = kind, name, mro
        self.itemsize = 8

    def __repr__(self):
        return "dtype(%s)" % self.name

    def __eq__(self, o):
        try:
            return kind_of(o) == {"f": "f", "i": "i", "b": "b", "O": "o"}.get(self.kind, self.kind)
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.kind)


DT = {"f": DType("f", "float64"), "i": DType("i", "int64"), "b": DType("b", "bool"), "o": DType("O", "object")}


def dtype_obj(k):
    return DT[k]


def kind_of(dt):
    if dt is None:
        return None
    if isinstance(dt, DType):
        return "o" if dt.kind == "O" else dt.kind
    if isinstance(dt, str):
        s = dt.lstrip("<>=|")
        if s.startswith("f") or s in ("d", "double"):
            return "f"
        if s.startswith(("i", "u", "l")):
            return "i"
        if s.startswith("b") or s == "?":
            return "b"
        if s in ("O", "object"):
            return "o"
        raise Unsupported("dtype %s" % dt)
    k = getattr(dt, "_np_kind", None)
    if k:
        return k
    if dt is float:
        return "f"
    if dt is int:
        return "i"
    if dt is bool:
        return "b"
    if dt is object:
        return "o"
    n = getattr(dt, "__name__", "")
    raise Unsupported("dtype %r" % (n or dt,))


def join_kind(*ks):
    if "o" in ks:
        return "o"
    if "f" in ks:
        return "f"
    if "i" in ks:
        return "i"
    return "b"


def el_kind(x):
    if isinstance(x, SBool) or isinstance(x, bool):
        return "b"
    if isinstance(x, SNum):
        return x.k
    if isinstance(x, int):
        return "i"
    if isinstance(x, float):
        return "f"
    return "o"


def cast_el(x, k):
    """cast an element to dtype kind k, as an array store does"""
    if k == "o":
        return x
    if k == "b":
        return as_bool(x)
    x = num(x) if not isinstance(x, (SNum,)) else x
    if k == "f":
        return x if x.k == "f" else SNum(toreal(x.t), x.nan, "f")
    if x.k == "i":
        return x
    t = x.t
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return SNum(t.arg(0), x.nan, "i")
    if core.lit(t):
        return SNum(z3.IntVal(int(Fraction(str(t)))), x.nan, "i")
    return SNum(If(t >= 0, toint_floor(t), -toint_floor(simp(-t))), x.nan, "i")


def cast_scalar(x, dt):
    k = kind_of(dt)
    r = cast_el(x, k)
    if isinstance(r, SNum):
        return SNum(r.t, r.nan, r.k, True)
    return r


def ite_el(c, a, b):
    if core.is_true(c):
        return a
    if core.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(If(c, as_bool(a).t, as_bool(b).t))
    if as_num(a) is None or as_num(b) is None:
        if a is b or (type(a) is type(b) and not isinstance(a, (SNum, SBool)) and a == b):
            return a
        raise Unsupported("merge of non-numeric elements")
    a, b = num(a), num(b)
    k = "i" if a.k == b.k == "i" else "f"
    at, bt = (a.t, b.t) if a.k == b.k else (toreal(a.t), toreal(b.t))
    return SNum(If(c, at, bt), If(c, a.nan, b.nan), k, a.np or b.np)


# ----------------------------------------------------------------- shapes

def dim(x):
    return zint(x)


def dmul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return zint(simp(T(a) * T(b)))


def deq(a, b):
    """are two dims equal? True/False/None"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return C().decide_quick(T(a) == T(b))


def dim_val(d):
    return d if isinstance(d, int) else SNum(d, FALSE, "i")


def same_shape(s1, s2):
    if len(s1) != len(s2):
        return False
    r = True
    for a, b in zip(s1, s2):
        e = deq(a, b)
        if e is False:
            return False
        if e is None:
            r = None
    return r


def broadcast(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for ax in range(nd):
        cur = None
        for s in shapes:
            j = ax - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if cur is None or (isinstance(cur, int) and cur == 1):
                cur = d
                continue
            if isinstance(d, int) and d == 1:
                continue
            e = deq(cur, d)
            if e is None:
                one_c, one_d = C().decide_quick(T(cur) == 1), C().decide_quick(T(d) == 1)
                if one_c is False and one_d is False:
                    e = bool(SBool(T(cur) == T(d)))
                else:
                    e = bool(SBool(T(cur) == T(d)))
                    if not e:
                        if bool(SBool(T(cur) == 1)):
                            cur = d
                            continue
                        if bool(SBool(T(d) == 1)):
                            continue
            elif e is False:
                if C().decide_quick(T(cur) == 1) is True:
                    cur = d
                    continue
                if C().decide_quick(T(d) == 1) is True:
                    continue
            if not e:
                raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bidx(shape, idx):
    """index into an operand of `shape` broadcast to len(idx) axes"""
    off = len(idx) - len(shape)
    r = []
    for j, d in enumerate(shape):
        i = idx[off + j]
        if isinstance(d, int) and d == 1:
            i = 0
        r.append(i)
    return tuple(r)


# ------------------------------------------------------------------ arrays

class SArr:
    _is_sym_array = True
    __array_priority__ = 100

    def __init__(self, shape, dtype, fn=None, base=None, fwd=None, inv=None, name=None):
        self._shape = tuple(shape)
        self._k = dtype
        self._fn = fn
        self._base, self._fwd, self._inv = base, fwd, inv
        self._memo = {}
        self._ver = 0
        self.name = name
        self._readonly = False
        self._of = None             # (array, version) this one was copied from
        self._coord = None          # (sel, axis) for coordinate arrays of a full grid

    # -- content -------------------------------------------------------
    def root(self):
        return self._base.root() if self._base is not None else self

    def ver(self):
        return self.root()._ver

    def get(self, *idx):
        idx = tuple(zint(i) for i in idx)
        if self._base is not None:
            return self._base.get(*self._fwd(*idx))
        for i, d in zip(idx, self._shape):
            if not C().instantiating and (not isinstance(i, int) or not isinstance(d, int)):
                C().touch(i, self.name)
        key = (C().instantiating,) + tuple(i if isinstance(i, int) else ("z", simp(i).get_id()) for i in idx)
        m = self._memo.get(key)
        if m is None:
            m = self._fn(*idx)
            self._memo[key] = m
            self._memo[("keep", key)] = [simp(i) for i in idx if not isinstance(i, int)]
        return m

    def snap(self):
        """getter of the current content, unaffected by later writes"""
        if self._base is not None:
            g, fwd = self._base.snap(), self._fwd
            return lambda *i: g(*fwd(*i))
        fn, memo, shape, name = self._fn, self._memo, self._shape, self.name

        def g(*idx):
            idx = tuple(zint(i) for i in idx)
            key = (C().instantiating,) + tuple(i if isinstance(i, int) else ("z", simp(i).get_id()) for i in idx)
            m = memo.get(key)
            if m is None:
                for i, d in zip(idx, shape):
                    if not C().instantiating and (not isinstance(i, int) or not isinstance(d, int)):
                        C().touch(i, name)
                m = fn(*idx)
                memo[key] = m
                memo[("keep", key)] = [simp(i) for i in idx if not isinstance(i, int)]
            return m
        return g

    def write(self, cond, val):
        """cond(idx)->z3 Bool, val(idx)->element for all positions in this array"""
        if self._readonly:
            raise ValueError("assignment destination is read-only")
        if self._base is not None:
            inv = self._inv

            def bcond(*bi):
                c, i = inv(*bi)
                if core.is_false(c):
                    return FALSE
                return And(c, cond(*i))

            def bval(*bi):
                return val(*inv(*bi)[1])
            self._base.write(bcond, bval)
            return
        old = self.snap()
        k = self._k

        def fn(*idx):
            c = simp(cond(*idx))
            if core.is_true(c):
                return cast_el(val(*idx), k)
            if core.is_false(c):
                return old(*idx)
            return ite_el(c, cast_el(val(*idx), k), old(*idx))
        self._fn = fn
        self._memo = {}
        self._ver += 1

    # -- attributes -------------------------------------------------------
    @property
    def shape(self):
        return tuple(dim_val(d) for d in self._shape)

    @shape.setter
    def shape(self, v):
        raise Unsupported("shape assignment")

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for d in self._shape:
            r = dmul(r, d)
        return dim_val(r)

    @property
    def dtype(self):
        return DT[self._k]

    @property
    def T(self):
        if self.ndim < 2:
            return self
        return SArr(self._shape[::-1], self._k, base=self, fwd=lambda *i: i[::-1], inv=lambda *i: (TRUE, i[::-1]))

    @property
    def data(self):
        return self

    @property
    def value(self):
        return self

    @property
    def real(self):
        return self

    @property
    def flat(self):
        return self.ravel()

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        if isinstance(self._shape[0], int):
            return self._shape[0]
        raise Unsupported("len() outside the len hook")

    def __bool__(self):
        if not self._shape:
            return bool(as_bool(self.get()))
        if all(d == 1 for d in self._shape if isinstance(d, int)) and all(isinstance(d, int) for d in self._shape):
            return bool(as_bool(self.get(*[0] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        if isinstance(self._shape[0], int):
            return iter([self[i] for i in range(self._shape[0])])
        raise Unsupported("iteration over an array of symbolic length")

    def __index__(self):
        if not self._shape and self._k == "i":
            return self.get().__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __float__(self):
        raise Unsupported("float() of array")

    def _as_snum(self):
        if not self._shape:
            return num(self.get())
        return None

    def __repr__(self):
        return "SArr(%s, shape=%s, %s)" % (self.name, self._shape, self._k)

    def __format__(self, s):
        return "<array>"

    __hash__ = object.__hash__

    # -- indexing -----------------------------------------------------------
    def _parse(self, key):
        """basic indexing -> list of ('i', idx) | ('s', start, len, step) | ('n',); None if advanced"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (SArr, SSel, list)) and not (isinstance(k, SArr) and k.ndim == 0 and k._k == "i") for k in key):
            return None
        out = []
        nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
        ax = 0
        for k in key:
            if k is Ellipsis:
                for _ in range(self.ndim - nreal):
                    out.append(("s", 0, self._shape[ax], 1))
                    ax += 1
                continue
            if k is None:
                out.append(("n",))
                continue
            if ax >= self.ndim:
                raise IndexError("too many indices for array")
            d = self._shape[ax]
            if isinstance(k, slice):
                out.append(slice_of(k, d))
            else:
                if isinstance(k, SArr):
                    k = k.get()
                if isinstance(k, SBool) or isinstance(k, bool):
                    raise Unsupported("boolean scalar index")
                if isinstance(k, SNum) and k.k != "i" or isinstance(k, float):
                    raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
                if isinstance(k, str):
                    raise IndexError("only integers, slices are valid indices")
                out.append(("i", index_of(k, d)))
            ax += 1
        while ax < self.ndim:
            out.append(("s", 0, self._shape[ax], 1))
            ax += 1
        return out

    def __getitem__(self, key):
        p = self._parse(key)
        if p is None:
            return adv_get(self, key)
        if all(x[0] == "i" for x in p):
            e = self.get(*[x[1] for x in p])
            if isinstance(e, SNum):
                return SNum(e.t, e.nan, e.k, True)
            return e
        return self._view(p)

    def _view(self, p):
        shape = tuple(1 if x[0] == "n" else x[2] for x in p if x[0] != "i")

        def fwd(*ni):
            r, j = [], 0
            for x in p:
                if x[0] == "i":
                    r.append(x[1])
                elif x[0] == "n":
                    j += 1
                else:
                    r.append(lin(x[1], x[3], ni[j]))
                    j += 1
            return tuple(r)

        def inv(*bi):
            c, r, ax = [], [], 0
            for x in p:
                if x[0] == "i":
                    c.append(teq(bi[ax], x[1]))
                    ax += 1
                elif x[0] == "n":
                    r.append(0)
                else:
                    cc, i = unlin(bi[ax], x[1], x[2], x[3])
                    c.append(cc)
                    r.append(i)
                    ax += 1
            return simp(And(*c)), tuple(r)
        return SArr(shape, self._k, base=self, fwd=fwd, inv=inv)

    def __setitem__(self, key, value):
        if isinstance(key, (SBool, bool)):
            key = as_bool(key)
            if self.ndim == 0:
                v = scalar_of(value)
                if self._k == "i":
                    raise Unsupported("masked assignment to an integer scalar array")
                self.write(lambda *i: key.t, lambda *i: v)
            elif bool(key):
                self[...] = value
            return
        p = self._parse(key)
        if p is None:
            return adv_set(self, key, value)
        if all(x[0] == "i" for x in p):
            ii = [x[1] for x in p]
            v = scalar_of(value)
            if self._k == "i":
                vv = num(v)
                if vv.k == "f" and not core.is_false(vv.nan) and bool(SBool(vv.nan)):
                    raise ValueError("cannot convert float NaN to integer")
            self.write(lambda *i: And(*[teq(a, b) for a, b in zip(i, ii)]), lambda *i: v)
            return
        v = self._view(p)
        assign_all(v, value)

    # -- arithmetic ------------------------------------------------------------
    def __array_ufunc__(self, *a, **k):
        raise Unsupported("real numpy called on a symbolic array")

    def astype(self, dt, copy=True, **kw):
        k = kind_of(dt)
        g = self.snap()
        src = self._k
        if k == "i" and src == "f":
            return SArr(self._shape, k, lambda *i: cast_el(g(*i), k))
        return SArr(self._shape, k, lambda *i: cast_el(g(*i), k))

    def copy(self, *a, **k):
        r = SArr(self._shape, self._k, self.snap())
        if self._base is None:
            r._of = (self, self._ver) if self._ver or self._of is None else self._of
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def fill(self, v):
        assign_all(self, v)

    def any(self, axis=None, **k):
        return any_(self, axis)

    def all(self, axis=None, **k):
        return all_(self, axis)

    def sum(self, axis=None, **k):
        return sum_(self, axis)

    def mean(self, axis=None, **k):
        return mean_(self, axis)

    def std(self, axis=None, ddof=0, **k):
        return std_(self, axis)

    def var(self, axis=None, ddof=0, **k):
        s = std_(self, axis)
        return s * s

    def min(self, axis=None, **k):
        return minmax(self, True, axis)

    def max(self, axis=None, **k):
        return minmax(self, False, axis)

    def argmin(self, axis=None, **k):
        return argminmax(self, True, axis)

    def argmax(self, axis=None, **k):
        return argminmax(self, False, axis)

    def argsort(self, *a, **k):
        return argsort_(self)

    def round(self, nd=0, **k):
        return ew(lambda x: round_(x, nd), self)

    def clip(self, lo=None, hi=None, **k):
        return clip_(self, lo, hi)

    def ravel(self, *a):
        if self.ndim == 1:
            return self
        raise Unsupported("ravel")

    def flatten(self, *a):
        if self.ndim == 1:
            return self.copy()
        raise Unsupported("flatten")

    def reshape(self, *a):
        raise Unsupported("reshape")

    def tolist(self):
        if all(isinstance(d, int) for d in self._shape) and self.ndim == 1:
            return [self.get(i) for i in range(self._shape[0])]
        return SSeq.of(self)

    def item(self, *a):
        if not a and (self.ndim == 0):
            return self.get()
        return self[a if len(a) > 1 else a[0]] if a else self.get(*[0] * self.ndim)

    def nonzero(self):
        return where_(self)

    def squeeze(self):
        if any(isinstance(d, int) and d == 1 for d in self._shape):
            raise Unsupported("squeeze")
        return self

    def repeat(self, *a):
        raise Unsupported("repeat")

    def to(self, unit):
        return self


def _arith(name, op, rev=False, inplace=False):
    def f(self, o):
        if isinstance(o, SSel):
            return NotImplemented
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        if getattr(o, "_is_unit", False):
            if inplace:
                raise Unsupported("in-place operation with a unit")
            return NotImplemented
        if inplace:
            r = ew(op, self, o)
            if not (isinstance(r, SArr) and same_shape(r._shape, self._shape) is not False):
                raise ValueError("non-broadcastable output operand")
            order = "biof"
            if {"b": 0, "i": 1, "f": 2, "o": 3}[r._k] > {"b": 0, "i": 1, "f": 2, "o": 3}[self._k]:
                raise TypeError("Cannot cast ufunc output from %s to %s with casting rule 'same_kind'" % (r._k, self._k))
            g = r.snap()
            self.write(lambda *i: TRUE, lambda *i: g(*i))
            return self
        return ew((lambda a, b: op(b, a)), self, o) if rev else ew(op, self, o)
    f.__name__ = name
    return f


def _and(a, b):
    if el_kind(a) == "b" and el_kind(b) == "b":
        return as_bool(a) & as_bool(b)
    raise Unsupported("bitwise and of integers")


def _or(a, b):
    if el_kind(a) == "b" and el_kind(b) == "b":
        return as_bool(a) | as_bool(b)
    raise Unsupported("bitwise or of integers")


def _xor(a, b):
    if el_kind(a) == "b" and el_kind(b) == "b":
        return as_bool(a) ^ as_bool(b)
    raise Unsupported("bitwise xor of integers")


def _npn(x):
    """mark numeric operand as numpy scalar (division by zero gives nan, not an error)"""
    if isinstance(x, SNum) and not x.np:
        return SNum(x.t, x.nan, x.k, True)
    if isinstance(x, (SBool, bool)):
        return x
    if isinstance(x, (int, float)) and not (isinstance(x, float) and math.isinf(x)):
        n = num(x)
        return SNum(n.t, n.nan, n.k, True)
    return x


def npop(op):
    def f(a, b):
        if not isinstance(a, (SNum, SBool, int, float)) or not isinstance(b, (SNum, SBool, int, float)):
            if isinstance(a, Cmp) or isinstance(b, Cmp):
                return op(a, b)
            r = op(a, b)
            return r
        return op(_npn(a), _npn(b))
    return f


class Cmp:
    pass


OPS = {
    "add": npop(lambda a, b: a + b), "sub": npop(lambda a, b: a - b), "mul": npop(lambda a, b: a * b),
    "truediv": npop(lambda a, b: a / b), "floordiv": npop(lambda a, b: a // b), "mod": npop(lambda a, b: a % b),
    "pow": npop(lambda a, b: a ** b), "and": _and, "or": _or, "xor": _xor,
}
for _n, _op in OPS.items():
    setattr(SArr, "__%s__" % _n, _arith(_n, _op))
    setattr(SArr, "__r%s__" % _n, _arith(_n, _op, rev=True))
    setattr(SArr, "__i%s__" % _n, _arith(_n, _op, inplace=True))


def _eqop(a, b):
    r = a == b
    if r is NotImplemented or r is False or r is True:
        return SBool(TRUE if r is True else FALSE)
    return r


CMPS = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
        "eq": _eqop, "ne": lambda a, b: ~_eqop(a, b)}


def _asb(f):
    def g(a, b):
        if isinstance(a, (int, float)) and isinstance(b, (SNum, SBool)):
            a = a if isinstance(a, float) and math.isinf(a) else num(a)
        if isinstance(a, float) and math.isinf(a):
            if f is CMPS["lt"]:
                return b > a
            if f is CMPS["le"]:
                return b >= a
            if f is CMPS["gt"]:
                return b < a
            if f is CMPS["ge"]:
                return b <= a
        if isinstance(a, SBool) and not isinstance(b, (SBool, bool)):
            a = a.num()
        return as_bool(f(a, b))
    return g


for _n, _op in list(CMPS.items()):
    OPS[_n] = _asb(_op)


def _cmpm(name):
    op = OPS[name]

    def f(self, o):
        if o is None or isinstance(o, (str, dict)):
            if name == "eq":
                return SArr(self._shape, "b", lambda *i: SBool(FALSE)) if isinstance(o, str) or o is None else NotImplemented
            return NotImplemented
        if isinstance(o, SSel) or getattr(o, "_is_unit", False):
            return NotImplemented
        return ew(op, self, o)
    return f


for _n in CMPS:
    setattr(SArr, "__%s__" % _n, _cmpm(_n))
SArr.__neg__ = lambda self: ew(lambda x: -num(x), self)
SArr.__pos__ = lambda self: self.copy()
SArr.__abs__ = lambda self: ew(lambda x: abs(num(x)), self)


def _inv(x):
    return ~x if isinstance(x, SBool) else ~num(x)


SArr.__invert__ = lambda self: ew(_inv, self) if self._k in "bi" else _raise(TypeError("ufunc 'invert' not supported for the input types"))


def _raise(e):
    raise e


# ------------------------------------------------------------ index helpers

def teq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return TRUE if a == b else FALSE
    return simp(T(a) == T(b))


def lin(start, step, i):
    if isinstance(start, int) and start == 0 and step == 1:
        return i
    if isinstance(i, int) and isinstance(start, int):
        return start + step * i
    return zint(simp(T(start) + step * T(i)))


def unlin(b, start, n, step):
    """base index -> (inside?, view index)"""
    if isinstance(b, int) and isinstance(start, int) and isinstance(n, int):
        q, r = divmod(b - start, step)
        return (TRUE if r == 0 and 0 <= q < n else FALSE), q
    d = simp(T(b) - T(start))
    if step == 1:
        i = d
        c = And(i >= 0, i < T(n))
    elif step == -1:
        i = simp(-d)
        c = And(i >= 0, i < T(n))
    else:
        i = simp(d / step)
        c = And(d % step == 0, i >= 0, i < T(n))
    return simp(c), zint(i)


def index_of(k, d):
    """scalar index with bounds check and negative wrap-around"""
    i = zint(k)
    if isinstance(i, int) and isinstance(d, int):
        if not -d <= i < d:
            raise IndexError("index %d is out of bounds for axis with size %d" % (i, d))
        return i % d if i < 0 else i
    if isinstance(i, int) and i < 0:
        if not bool(SBool(T(d) + i >= 0)):
            raise IndexError("index out of bounds")
        return zint(simp(T(d) + i))
    ok = And(T(i) >= -T(d), T(i) < T(d))
    if not bool(SBool(ok)):
        raise IndexError("index out of bounds")
    neg = C().decide_quick(T(i) < 0)
    if neg is False:
        return i
    if neg is True:
        return zint(simp(T(d) + T(i)))
    return If(T(i) < 0, T(d) + T(i), T(i))


def pick(c, a, b):
    """a if c else b, settled by the path where possible"""
    d = C().decide_quick(c)
    if d is True:
        return a
    if d is False:
        return b
    return zint(If(c, T(a), T(b)))


def bound(v, n, default):
    if v is None:
        return default
    v = zint(v)
    if isinstance(v, int) and isinstance(n, int):
        if v < 0:
            v = max(v + n, 0)
        return min(v, n)
    if isinstance(v, int):
        if v < 0:
            s = zint(simp(T(n) + v))
            return pick(T(s) >= 0, s, 0)
        return pick(T(v) <= T(n), v, n)
    neg = C().decide_quick(T(v) < 0)
    if neg is False:
        return pick(T(v) <= T(n), v, n)
    if neg is True:
        s = zint(simp(T(n) + T(v)))
        return pick(T(s) >= 0, s, 0)
    s = zint(If(T(v) < 0, T(n) + T(v), T(v)))
    s = zint(If(T(s) < 0, z3.IntVal(0), T(s)))
    return zint(If(T(s) > T(n), T(n), T(s)))


def slice_of(k, n):
    step = 1 if k.step is None else zint(k.step)
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")
    if step == 0:
        raise ValueError("slice step cannot be zero")
    if step < 0:
        if step == -1 and k.start is None and k.stop is None:
            return ("s", zint(simp(T(n) - 1)) if not isinstance(n, int) else n - 1, n, -1)
        if isinstance(n, int):
            s, e, st = slice(k.start, k.stop, step).indices(n)
            return ("s", s, len(range(s, e, st)), st)
        raise Unsupported("negative slice step")
    a = bound(k.start, n, 0)
    b = bound(k.stop, n, n)
    if isinstance(a, int) and isinstance(b, int):
        ln = max(0, b - a)
        ln = (ln + step - 1) // step
    else:
        ln = zint(simp(T(b) - T(a)))
        ln = pick(T(ln) >= 0, ln, 0)
        if step != 1:
            ln = zint(simp((T(ln) + (step - 1)) / step))
    return ("s", a, ln, step)


def scalar_of(v):
    if isinstance(v, SArr):
        if v.ndim == 0:
            return v.get()
        if all(isinstance(d, int) and d == 1 for d in v._shape):
            return v.get(*[0] * v.ndim)
        raise ValueError("setting an array element with a sequence.")
    if isinstance(v, (SNum, SBool, int, float)):
        return v
    n = as_num(v)
    if n is not None:
        return n
    if isinstance(v, (list, tuple)):
        raise ValueError("setting an array element with a sequence.")
    if v is None:
        raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
    raise Unsupported("scalar %r" % (type(v),))


def assign_all(v, value):
    """v[...] = value with broadcasting"""
    if isinstance(value, SSel):
        raise Unsupported("assigning a selection to a region")
    value = asarr(value)
    if value.ndim == 0:
        e = value.get()
        v.write(lambda *i: TRUE, lambda *i: e)
        return
    vs = value._shape
    if len(vs) > v.ndim:
        raise ValueError("could not broadcast input array")
    for a, b in zip(vs[::-1], v._shape[::-1]):
        if isinstance(a, int) and a == 1:
            continue
        e = deq(a, b)
        if e is None:
            e = bool(SBool(T(a) == T(b)))
        if not e:
            raise ValueError("could not broadcast input array from shape into shape")
    g = value.snap()
    v.write(lambda *i: TRUE, lambda *i: g(*bidx(vs, i)))


# ------------------------------------------------------- selections (masks)

class Sel:
    """index set {i in shape : cond(i)} in C order"""
    def __init__(self, arr):
        self.shape = arr._shape
        g = arr.snap()
        self.cond = lambda *i: as_bool(g(*i)).t
        self.arr = SArr(arr._shape, "b", g)
        self._count = None
        self._first = None

    def token(self):
        return token(self.arr)

    def count(self):
        if self._count is None:
            tk = self.token()
            c = C()
            key = ("count", tk)
            m = c.memo_lib.get(key)
            if m is None:
                n = z3.Int("count_%d" % tk)
                c.fact(n >= 0)
                cond, shape = self.cond, self.shape
                tot = 1
                for d in shape:
                    tot = dmul(tot, d)
                c.fact(n <= T(tot))
                c.uni(list(shape), lambda *i: Implies(cond(*i), n >= 1))
                ks = [c.fresh_int("sel") for _ in shape]
                c.fact(Implies(n >= 1, And(*[And(k >= 0, k < T(d)) for k, d in zip(ks, shape)], cond(*ks))))
                if all(isinstance(d, int) for d in shape) and len(shape) == 1 and shape[0] <= 8:
                    c.fact(n == z3.Sum([z3.If(cond(i), 1, 0) for i in range(shape[0])] or [z3.IntVal(0)]))
                m = c.memo_lib[key] = (n, ks)
            self._count, self._w = m
        return self._count

    def first(self):
        """index of the first selected element (1-D), assuming there is one"""
        if self._first is None:
            if len(self.shape) != 1:
                raise Unsupported("first element of a 2-D selection")
            n = self.count()
            key = ("first", self.token())
            c = C()
            f = c.memo_lib.get(key)
            if f is None:
                f = c.fresh_int("first")
                cond = self.cond
                c.fact(Implies(n >= 1, And(f >= 0, f < T(self.shape[0]), cond(f))))
                c.uni([self.shape[0]], lambda i: Implies(And(n >= 1, T(i) < f), Not(cond(i))))
                c.memo_lib[key] = f
            self._first = f
        return self._first


class SSel:
    """values el(i) for i in a selection, a 1-D array of unknown length"""
    _is_sym_array = True
    _is_sel = True

    def __init__(self, sel, k, el, coord=None):
        self.sel, self._k, self.el, self.coord = sel, k, el, coord

    ndim = 1

    @property
    def dtype(self):
        return DT[self._k]

    @property
    def size(self):
        return SNum(self.sel.count(), FALSE, "i")

    @property
    def shape(self):
        return (self.size,)

    @property
    def data(self):
        return self

    @property
    def _shape(self):
        return (self.sel.count(),)

    def __len__(self):
        raise Unsupported("len() outside the len hook")

    def __iter__(self):
        raise Unsupported("iteration over a selection")

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __getitem__(self, key):
        if isinstance(key, (int, SNum)) and not isinstance(key, bool):
            i = zint(key)
            if isinstance(i, int) and i == 0:
                if not bool(SBool(self.sel.count() >= 1)):
                    raise IndexError("index 0 is out of bounds for axis 0 with size 0")
                e = self.el(self.sel.first())
                return SNum(e.t, e.nan, e.k, True) if isinstance(e, SNum) else e
        raise Unsupported("indexing a selection")

    def astype(self, dt, copy=True):
        k = kind_of(dt)
        return SSel(self.sel, k, lambda *i: cast_el(self.el(*i), k))

    def copy(self):
        return SSel(self.sel, self._k, self.el, self.coord)

    def _red(self, what):
        return lib_scalar("%s_sel" % what, [self.sel.arr, self.full()])

    def full(self):
        """array over the full shape, zero outside the selection (for congruence)"""
        sel, el = self.sel, self.el
        z = SBool(FALSE) if self._k == "b" else num(0) if self._k == "i" else num(0.0)
        return SArr(sel.shape, self._k, lambda *i: ite_el(sel.cond(*i), el(*i), z))

    def sum(self, *a, **k):
        return self._red("sum")

    def mean(self, *a, **k):
        return self._red("mean")

    def std(self, *a, **k):
        return self._red("std")

    def any(self, *a):
        f = self.full()
        return any_(f)

    def all(self, *a):
        sel, el = self.sel, self.el
        return all_(SArr(sel.shape, "b", lambda *i: SBool(Implies(sel.cond(*i), as_bool(el(*i)).t))))

    def min(self, *a, **k):
        raise Unsupported("min of a selection")

    max = min
    __hash__ = object.__hash__


def same_sel(a, b):
    return a is b or (len(a.shape) == len(b.shape) and a.token() == b.token())


def sel_ew(op, *args):
    s = next(a for a in args if isinstance(a, SSel))
    els = []
    for a in args:
        if isinstance(a, SSel):
            if not same_sel(a.sel, s.sel):
                raise Unsupported("arithmetic on different selections")
            els.append(a.el)
        elif isinstance(a, SArr):
            if a.ndim == 0:
                e = a.get()
                els.append(lambda *i, e=e: e)
            else:
                raise Unsupported("selection with array operand")
        else:
            els.append(lambda *i, e=a: e)
    probe_kind = result_kind(op, [a._k if isinstance(a, (SSel, SArr)) else el_kind(a) for a in args])
    return SSel(s.sel, probe_kind, lambda *i: cast_el(op(*[e(*i) for e in els]), probe_kind))


def _selm(name, rev=False):
    op = OPS[name]

    def f(self, o):
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        return sel_ew(lambda a, b: op(b, a), self, o) if rev else sel_ew(op, self, o)
    return f


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor"):
    setattr(SSel, "__%s__" % _n, _selm(_n))
    setattr(SSel, "__r%s__" % _n, _selm(_n, True))
for _n in CMPS:
    setattr(SSel, "__%s__" % _n, _selm(_n))
SSel.__neg__ = lambda s: sel_ew(lambda x: -num(x), s)
SSel.__abs__ = lambda s: sel_ew(lambda x: abs(num(x)), s)
SSel.__invert__ = lambda s: sel_ew(_inv, s)


class SWhere(tuple):
    """result of np.where(cond): one SSel of coordinates per axis"""
    sel = None


def where_(c):
    c = asarr(c)
    if c.ndim == 0:
        raise ValueError("Calling nonzero on 0d arrays is not allowed.")
    if isinstance(c, SSel):
        raise Unsupported("where on a selection")
    if c._k != "b":
        c = ew(lambda x: as_bool(x), c)
    s = Sel(c)
    w = SWhere(SSel(s, "i", (lambda *i, ax=ax: SNum(T(i[ax]), FALSE, "i")), coord=(s, ax)) for ax in range(c.ndim))
    w.sel = s
    return w


def key_sel(a, key):
    """the selection a full mask / where() key denotes over array a, or None"""
    if isinstance(key, SWhere):
        return key.sel
    if isinstance(key, SArr) and key._k == "b" and key.ndim == a.ndim:
        if same_shape(key._shape, a._shape) is False:
            raise IndexError("boolean index did not match indexed array")
        return Sel(key)
    if isinstance(key, SSel) and key.coord is not None and a.ndim == 1 and key.coord[1] == 0 and len(key.sel.shape) == 1:
        return key.sel
    if isinstance(key, (tuple, list)) and key and all(isinstance(k, SSel) and k.coord is not None for k in key):
        if len(key) == a.ndim and all(k.coord[1] == j and k.coord[0] is key[0].coord[0] for j, k in enumerate(key)):
            return key[0].coord[0]
    return None


def adv_get(a, key):
    s = key_sel(a, key)
    if s is not None:
        for d, e in zip(s.shape, a._shape):
            if deq(d, e) is not True and not bool(SBool(T(d) <= T(e))):
                raise IndexError("index out of bounds")
        g = a.snap()
        return SSel(s, a._k, lambda *i: g(*i))
    # gather with integer arrays
    if not isinstance(key, tuple):
        key = (key,)
    if any(isinstance(k, SSel) for k in key):
        # gather along a selection
        if len(key) == a.ndim and all(isinstance(k, SSel) and k._k == "i" and same_sel(k.sel, key[0].sel) for k in key):
            sel, g, els = key[0].sel, a.snap(), [k.el for k in key]
            for d, el in zip(a._shape, els):
                if bool(any_(SArr(sel.shape, "b", lambda *i, el=el, d=d: SBool(And(sel.cond(*i), Or(num(el(*i)).t < -T(d), num(el(*i)).t >= T(d))))))):
                    raise IndexError("index out of bounds")

            def pick(*i):
                idx = []
                for d, el in zip(a._shape, els):
                    v = simp(num(el(*i)).t)
                    dec = (v.as_long() < 0) if core.lit(v) else C().decide_quick(v < 0)
                    idx.append(v if dec is False else simp(v + T(d)) if dec is True else If(v < 0, v + T(d), v))
                return g(*idx)
            return SSel(sel, a._k, pick)
        raise Unsupported("advanced index with selections")
    if len(key) != a.ndim and not (len(key) == 1):
        raise Unsupported("partial advanced index")
    ks = [asarr(k) for k in key]
    if any(k._k == "b" for k in ks):
        raise Unsupported("boolean index of lower rank")
    if any(k._k != "i" for k in ks):
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    shape = broadcast(*[k._shape for k in ks])
    gs = [k.snap() for k in ks]
    g = a.snap()
    rest = a._shape[len(ks):]
    # bounds: raise if some index is outside
    for k, d, gk in zip(ks, a._shape, gs):
        oob = any_(SArr(k._shape, "b", lambda *i, gk=gk, d=d: SBool(Or(gk(*i).t < -T(d), gk(*i).t >= T(d)))))
        if bool(oob):
            raise IndexError("index out of bounds")

    def fn(*i):
        lead = i[: len(shape)]
        idx = []
        for k, d, gk in zip(ks, a._shape, gs):
            v = gk(*bidx(k._shape, lead)).t
            dec = C().decide_quick(v < 0) if not core.lit(v) else (v.as_long() < 0)
            v = v if dec is False else simp(v + T(d)) if dec is True else If(v < 0, v + T(d), v)
            idx.append(v)
        return g(*idx, *i[len(shape):])
    return SArr(shape + rest, a._k, fn)


def adv_set(a, key, value):
    s = key_sel(a, key)
    if s is None:
        raise Unsupported("advanced assignment")
    for d, e in zip(s.shape, a._shape):
        if deq(d, e) is not True and not bool(SBool(T(d) <= T(e))):
            raise IndexError("index out of bounds")
    if isinstance(value, SSel):
        if not same_sel(value.sel, s):
            raise Unsupported("assigning a different selection")
        el = value.el
        a.write(lambda *i: s.cond(*i), lambda *i: el(*i))
        return
    value = asarr(value)
    if value.ndim:
        if all(isinstance(d, int) and d == 1 for d in value._shape):
            pass
        else:
            raise Unsupported("assigning an array to a mask")
    v = scalar_of(value)
    if a._k == "i":
        vv = num(v)
        if vv.k == "f" and not core.is_false(vv.nan) and bool(SBool(vv.nan)):
            raise ValueError("cannot convert float NaN to integer")
    a.write(lambda *i: s.cond(*i), lambda *i: v)


# ----------------------------------------------------------- construction

class SSeq(list):
    """a Python list of symbolic length whose k-th element is given by a function"""
    _is_sym_seq = True

    def __init__(self, n, fn, kind=None):
        super().__init__()
        self.n, self.fn, self.kind = n, fn, kind

    @staticmethod
    def of(a):
        g = a.snap()
        return SSeq(a._shape[0], (lambda i: g(i)) if a.ndim == 1 else None, a._k)

    def arr(self):
        fn, n = self.fn, self.n
        k = self.kind
        if k is None:
            c = z3.Int("probe!")
            e = fn(c)
            k = el_kind(e)
            if k == "o":
                return SArr((n,), "o", lambda i: fn(i))
        return SArr((n,), k, lambda i: cast_el(fn(i), k))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SSeq.of(self.arr()[i])
        return self.fn(index_of(i, self.n))

    def __len__(self):
        raise Unsupported("len() outside the len hook")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic list")

    def __bool__(self):
        return bool(SBool(T(self.n) > 0))

    def append(self, x):
        raise Unsupported("append to a symbolic list")

    extend = insert = pop = append

    def __add__(self, o):
        raise Unsupported("concatenating symbolic lists")

    __hash__ = object.__hash__


def from_list(v):
    """array of a nested Python list of scalars/arrays"""
    if any(isinstance(x, SSel) for x in v):
        raise Unsupported("list of selections")
    v = [x.arr() if isinstance(x, SSeq) else x for x in v]
    parts = [asarr(x) if isinstance(x, (list, tuple, SArr)) else x for x in v]
    if parts and all(isinstance(x, SArr) and x.ndim > 0 for x in parts):
        sh = parts[0]._shape
        for x in parts[1:]:
            e = same_shape(x._shape, sh)
            if e is False:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            if e is None:
                raise Unsupported("list of arrays of unknown shapes")
        k = join_kind(*[x._k for x in parts])
        gs = [x.snap() for x in parts]

        def fn(i, *r):
            if isinstance(i, int):
                return cast_el(gs[i](*r), k)
            e = cast_el(gs[-1](*r), k)
            for j in range(len(gs) - 2, -1, -1):
                e = ite_el(simp(T(i) == j), cast_el(gs[j](*r), k), e)
            return e
        return SArr((len(parts),) + sh, k, fn)
    els = [x.get() if isinstance(x, SArr) else x for x in parts]
    if any(isinstance(x, SArr) for x in els):
        raise ValueError("inhomogeneous shape")
    k = join_kind(*[el_kind(x) for x in els]) if els else "f"
    if k == "o":
        e2 = [as_num(x) for x in els]
        if all(x is not None for x in e2):
            els = e2
            k = join_kind(*[el_kind(x) for x in els])
    els = [cast_el(x, k) for x in els]

    def fn(i):
        if isinstance(i, int):
            return els[i]
        e = els[-1]
        for j in range(len(els) - 2, -1, -1):
            e = ite_el(simp(T(i) == j), els[j], e)
        return e
    return SArr((len(els),), k, fn)


def asarr(v):
    if isinstance(v, (SArr, SSel)):
        return v
    if getattr(v, "_sym_array", None) is not None:
        return v._sym_array()
    if isinstance(v, SSeq):
        return v.arr()
    if isinstance(v, SWhere):
        if len(v) == 1:
            raise Unsupported("array of where()")
        raise Unsupported("array of where()")
    if isinstance(v, (list, tuple)):
        return from_list(list(v))
    if isinstance(v, range):
        return from_list(list(v))
    if isinstance(v, (SNum, SBool)):
        return SArr((), el_kind(v), lambda: v)
    if isinstance(v, bool):
        return SArr((), "b", lambda: as_bool(v))
    if isinstance(v, (int, float)):
        if isinstance(v, float) and math.isinf(v):
            return SArr((), "f", lambda: v)
        n = num(v)
        return SArr((), n.k, lambda: n)
    n = as_num(v)
    if n is not None:
        return SArr((), n.k, lambda: n)
    if v is None or isinstance(v, str) or not hasattr(v, "__len__"):
        return SArr((), "o", lambda: v)
    raise Unsupported("array of %r" % (type(v),))


def result_kind(op, kinds):
    """dtype of an elementwise op, probed on literal-free constants"""
    sample = {"f": lambda i: SNum(z3.Real("pr!%d" % i), FALSE, "f", True), "i": lambda i: SNum(z3.Int("pi!%d" % i), FALSE, "i", True),
              "b": lambda i: SBool(z3.Bool("pb!%d" % i)), "o": lambda i: None}
    kinds = tuple(kinds)
    cache = C().run.kinds
    key = (op, kinds)
    if key in cache:
        return cache[key]
    nf, nu = len(C().facts), len(C().unis)
    saved_solver_facts = C().mute
    C().mute = True
    try:
        r = op(*[sample[k](i) for i, k in enumerate(kinds)])
    finally:
        C().mute = saved_solver_facts
    k = el_kind(r)
    cache[key] = k
    return k


def ew(op, *args, kind=None):
    """elementwise operation with broadcasting; scalar in, scalar out"""
    if any(isinstance(a, SSel) for a in args):
        return sel_ew(op, *args)
    xs = []
    arrays = False
    for a in args:
        if isinstance(a, (SArr, list, tuple)) or hasattr(a, "_sym_array"):
            a = asarr(a)
            if a.ndim == 0:
                xs.append(a.get())
                continue
            arrays = True
        xs.append(a)
    if not arrays:
        r = op(*xs)
        if isinstance(r, SNum):
            return SNum(r.t, r.nan, r.k, True)
        return r
    shape = broadcast(*[x._shape for x in xs if isinstance(x, SArr)])
    gs = []
    for x in xs:
        if isinstance(x, SArr):
            gs.append((x.snap(), x._shape))
        else:
            gs.append((x, None))
    if kind is None:
        ks = [x._k if isinstance(x, SArr) else el_kind(x) for x in xs]
        if any(k == "o" for k in ks):
            kind = None
        elif any(isinstance(x, float) and math.isinf(x) for x in xs):
            kind = "b" if op in OPS.values() and op in [OPS[n] for n in CMPS] else "f"
        else:
            # probe with the literal scalars kept (exponents matter)
            kind = _probe(op, xs, ks)

    def fn(*idx):
        r = op(*[g if sh is None else g(*bidx(sh, idx)) for g, sh in gs])
        return r if kind is None else cast_el(r, kind)
    return SArr(shape, kind or "o", fn)


def _probe(op, xs, ks):
    c = C()
    saved = c.mute
    c.mute = True
    try:
        a = []
        for i, (x, k) in enumerate(zip(xs, ks)):
            if isinstance(x, SArr):
                a.append(SNum(z3.Real("pr!%d" % i), FALSE, "f", True) if k == "f" else SNum(z3.Int("pi!%d" % i), FALSE, "i", True) if k == "i" else SBool(z3.Bool("pb!%d" % i)))
            else:
                a.append(x)
        return el_kind(op(*a))
    finally:
        c.mute = saved


# ------------------------------------------------------------- congruence

KX = [z3.Int("kx%d" % i) for i in range(12)]


def token(a):
    """id of the array's current content, equal for provably equal arrays"""
    a = asarr(a)
    if isinstance(a, SSel):
        a = a.full()
    c = C()
    key = (id(a.root()), a.ver()) if a._base is None else None
    if key is not None and key in c.tokmemo:
        return c.tokmemo[key][0]
    if key is not None and a._of is not None and a._ver == 0 and a._of[0]._ver == a._of[1]:
        got = token(a._of[0])
        c.tokmemo[key] = (got, a)
        return got
    nd = a.ndim
    if nd > 3:
        raise Unsupported("token of rank %d" % nd)
    if c.tokdepth >= 4:
        raise Unsupported("nested array functions")
    idx = KX[3 * c.tokdepth: 3 * c.tokdepth + nd]
    inr = And(*[And(k >= 0, k < T(d)) for k, d in zip(idx, a._shape)])
    for k in idx:
        c.touch(k)
    c.sandbox += 1
    c.tokdepth += 1
    try:
        e = a.get(*idx)
    finally:
        c.sandbox -= 1
        c.tokdepth -= 1
    if not isinstance(e, (SNum, SBool)):
        e = as_num(e)
        if e is None:
            raise Unsupported("token of object array")
    if c.loops_active:
        loop_free(c, [e.t] + ([e.nan] if isinstance(e, SNum) else []) + [d for d in a._shape if not isinstance(d, int)])
    got = None
    for ent in c.tokens:
        if len(ent["shape"]) != nd or isinstance(ent["e"], SBool) != isinstance(e, SBool):
            continue
        if any(deq(x, y) is not True for x, y in zip(ent["shape"], a._shape)):
            continue
        if c.equal_under(inr, ent["e"], e):
            got = ent["id"]
            break
    if got is None:
        got = len(c.tokens)
        c.tokens.append({"id": got, "shape": a._shape, "e": e, "arr": SArr(a._shape, a._k, a.snap())})
    if key is not None:
        c.tokmemo[key] = (got, a)
    return got


def loop_free(c, ts):
    """the content of an array named by a token may not depend on the index of a running generic loop"""
    from .prove import consts_of
    ks = {l.k.decl().name() for l in c.loops_active}
    n0 = min(l.n0 for l in c.loops_active)
    for t in ts:
        for nm in consts_of(t):
            m = core.sym_no(nm)
            if nm in ks or m is not None and m > n0:
                raise Unsupported("array function inside a loop body depends on the iteration")


def lib_scalar(name, arrays, *scalars, k="f", nan=None):
    """uninterpreted library result depending on array contents and scalars"""
    tk = "_".join(str(token(a)) for a in arrays)
    args = [toreal(num(s).t) for s in scalars]
    f = core.UF("%s[%s]" % (name, tk), *([core.RS] * len(args) + [core.IS if k == "i" else core.RS]))
    if nan is None:
        b = core.UF("%s_nan[%s]" % (name, tk), *([core.RS] * len(args) + [core.BS]))
        nan = b(*args) if args else z3.Bool("%s_nan[%s]" % (name, tk))
    t = f(*args) if args else (z3.Int if k == "i" else z3.Real)("%s[%s]" % (name, tk))
    return SNum(t, nan, k, True)


def lib_array(name, arrays, scalars, shape, k="f", nan=None):
    """uninterpreted library array result"""
    tk = "_".join(str(token(a)) for a in arrays)
    args = [toreal(num(s).t) for s in scalars]
    sorts = [core.RS] * len(args) + [core.IS] * len(shape)
    f = core.UF("%s[%s]" % (name, tk), *(sorts + [core.IS if k == "i" else core.RS]))
    fb = core.UF("%s_nan[%s]" % (name, tk), *(sorts + [core.BS]))

    def fn(*i):
        ii = [T(x) for x in i]
        return SNum(f(*args, *ii), fb(*args, *ii) if nan is None else nan, k)
    return SArr(shape, k, fn)


# --------------------------------------------------------------- reductions

def quant(a, universal):
    """SBool for all()/any() of a boolean array"""
    a = asarr(a)
    if isinstance(a, SSel):
        return a.all() if universal else a.any()
    if a.ndim == 0:
        return as_bool(a.get())
    c = C()
    g = a.snap()
    cond = lambda *i: as_bool(g(*i)).t
    if all(isinstance(d, int) for d in a._shape):
        n = 1
        for d in a._shape:
            n *= d
        if n <= 64:
            import itertools
            cs = [cond(*i) for i in itertools.product(*[range(d) for d in a._shape])]
            return SBool(And(*cs) if universal else Or(*cs))
    b = z3.Bool(c.fresh("all" if universal else "any"))
    ks = [c.fresh_int("q") for _ in a._shape]
    inr = And(*[And(k >= 0, k < T(d)) for k, d in zip(ks, a._shape)])
    if universal:
        c.uni(list(a._shape), lambda *i: Implies(b, cond(*i)))
        c.fact(Implies(Not(b), And(inr, Not(cond(*ks)))))
    else:
        c.uni(list(a._shape), lambda *i: Implies(Not(b), Not(cond(*i))))
        c.fact(Implies(b, And(inr, cond(*ks))))
    return SBool(b)


def all_(a, axis=None):
    if axis is not None and asarr(a).ndim != 1:
        raise Unsupported("all over an axis")
    return quant(a, True)


def any_(a, axis=None):
    if axis is not None and asarr(a).ndim != 1:
        raise Unsupported("any over an axis")
    return quant(a, False)


def _nonempty(a):
    tot = 1
    for d in a._shape:
        tot = dmul(tot, d)
    if isinstance(tot, int):
        if tot == 0:
            raise ValueError("zero-size array to reduction operation which has no identity")
    elif not bool(SBool(T(tot) > 0 if a.ndim == 1 else And(*[T(d) > 0 for d in a._shape]))):
        raise ValueError("zero-size array to reduction operation which has no identity")


def minmax(a, mn, axis=None, skipnan=False):
    a = asarr(a)
    if isinstance(a, SSel):
        raise Unsupported("min/max of a selection")
    if axis is not None and a.ndim != 1:
        raise Unsupported("min over an axis")
    if a.ndim == 0:
        return a.get()
    _nonempty(a)
    c = C()
    key = ("min" if mn else "max", token(a), skipnan)
    if key in c.memo_lib:
        return c.memo_lib[key]
    g = a.snap()
    isint = a._k == "i"
    nm = c.fresh("min" if mn else "max")
    m = z3.Int(nm) if isint else z3.Real(nm)
    ks = [c.fresh_int("arg") for _ in a._shape]
    inr = And(*[And(k >= 0, k < T(d)) for k, d in zip(ks, a._shape)])
    e = num(g(*ks))
    tv = lambda x: x.t if isint else toreal(x.t)

    def body(*i):
        x = num(g(*i))
        v = tv(x)
        return Or(x.nan, m <= v if mn else m >= v)
    c.uni(list(a._shape), body)
    maybe_nan = not core.is_false(simp(e.nan))
    if not maybe_nan:
        c.fact(And(inr, m == tv(e)))
        nan = FALSE
    else:
        nb = z3.Bool(c.fresh("hasnan"))
        ks2 = [c.fresh_int("argn") for _ in a._shape]
        inr2 = And(*[And(k >= 0, k < T(d)) for k, d in zip(ks2, a._shape)])
        if skipnan:
            # nb: all nan
            c.fact(Implies(Not(nb), And(inr, m == tv(e), Not(e.nan))))
            c.uni(list(a._shape), lambda *i: Implies(nb, num(g(*i)).nan))
        else:
            c.fact(Implies(Not(nb), And(inr, m == tv(e), Not(e.nan))))
            c.uni(list(a._shape), lambda *i: Implies(Not(nb), Not(num(g(*i)).nan)))
            c.fact(Implies(nb, And(inr2, num(g(*ks2)).nan)))
        nan = nb
        if C().decide_quick(nb) is False:
            nan = FALSE
    r = SNum(m, nan, "i" if isint else "f", True)
    c.memo_lib[key] = r
    return r


def argminmax(a, mn, axis=None):
    a = asarr(a)
    if a.ndim != 1 or isinstance(a, SSel):
        raise Unsupported("argmin of rank %s" % a.ndim)
    n = a._shape[0]
    if isinstance(n, int):
        if n == 0:
            raise ValueError("attempt to get argmin of an empty sequence")
    elif not bool(SBool(T(n) > 0)):
        raise ValueError("attempt to get argmin of an empty sequence")
    c = C()
    key = ("argmin" if mn else "argmax", token(a))
    if key in c.memo_lib:
        return c.memo_lib[key]
    k = c.fresh_int("argmin")
    g = a.snap()
    e = num(g(k))
    et = toreal(e.t)

    def body(i):
        x = num(g(i))
        v = toreal(x.t)
        le = et <= v if mn else et >= v
        lt = et < v if mn else et > v
        # first NaN wins; otherwise the first extreme value
        return And(Implies(x.nan, And(e.nan, k <= T(i))),
                   Implies(And(Not(e.nan), Not(x.nan)), And(le, Implies(T(i) < k, lt))))
    c.fact(And(k >= 0, k < T(n)))
    c.uni([n], body)
    r = SNum(k, FALSE, "i", True)
    c.memo_lib[key] = r
    return r


def argsort_(a):
    """stable-order permutation contract"""
    a = asarr(a)
    if a.ndim != 1 or isinstance(a, SSel):
        raise Unsupported("argsort")
    c = C()
    key = ("argsort", token(a))
    if key in c.memo_lib:
        return c.memo_lib[key].copy()
    n = a._shape[0]
    f = z3.Function(c.fresh("argsort"), core.IS, core.IS)
    finv = z3.Function(c.fresh("argsortinv"), core.IS, core.IS)
    g = a.snap()
    c.uni([n], lambda i: And(f(T(i)) >= 0, f(T(i)) < T(n), finv(f(T(i))) == T(i), finv(T(i)) >= 0, finv(T(i)) < T(n), f(finv(T(i))) == T(i)))
    c.uni([n, n], lambda i, j: Implies(T(i) < T(j), toreal(num(g(f(T(i)))).t) <= toreal(num(g(f(T(j)))).t)))
    r = SArr((n,), "i", lambda i: SNum(f(T(i)), FALSE, "i"))
    c.memo_lib[key] = r
    return r.copy()


def sum_(a, axis=None):
    a = asarr(a)
    if isinstance(a, SSel):
        return a.sum()
    if axis is not None and a.ndim != 1:
        raise Unsupported("sum over an axis")
    if a.ndim == 0:
        return a.get()
    if all(isinstance(d, int) for d in a._shape):
        import itertools
        n = 1
        for d in a._shape:
            n *= d
        if n <= 32:
            s = num(0.0) if a._k == "f" else num(0)
            for i in itertools.product(*[range(d) for d in a._shape]):
                s = s + num(a.get(*i))
            return s
    return lib_scalar("sum", [a], k="i" if a._k in "bi" else "f")


def mean_(a, axis=None):
    a = asarr(a)
    if isinstance(a, SSel):
        return a.mean()
    s = sum_(a, axis)
    return s / a.size


def std_(a, axis=None):
    a = asarr(a)
    if isinstance(a, SSel):
        return a.std()
    if axis is not None and a.ndim != 1:
        raise Unsupported("std over an axis")
    r = lib_scalar("std", [a], nan=None)
    C().fact(r.t >= 0)
    return r


# ------------------------------------------------------------ math helpers

def round_(x, nd=0):
    x = num(x)
    nd = concrete(num(nd)) if not isinstance(nd, int) else nd
    if x.k == "i" and nd >= 0:
        return x
    t = toreal(x.t)
    if core.lit(t):
        return SNum(core.qval(round(Fraction(str(t)), nd)), x.nan, "f", True)
    c = C()
    s = Fraction(10) ** nd
    if nd == 0:
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            return SNum(t, x.nan, "f", True)
        r = core.UF("round0", core.RS, core.IS)(t)
        rr = z3.ToReal(r)
        c.fact(And(rr - t <= z3.Q(1, 2), t - rr <= z3.Q(1, 2),
                   Implies(Or(rr - t == z3.Q(1, 2), t - rr == z3.Q(1, 2)), r % 2 == 0)))
        return SNum(rr, x.nan, "f", True)
    r = core.UF("round%d" % nd, core.RS, core.RS)(t)
    h = Fraction(1, 2) / s
    hq = z3.Q(h.numerator, h.denominator)
    c.fact(And(r - t <= hq, t - r <= hq))
    return SNum(r, x.nan, "f", True)


def clip_(a, lo, hi):
    def f(x, l, h):
        r = x
        if l is not None and not (isinstance(l, float) and l == -math.inf):
            r = maximum2(r, l)
        if h is not None and not (isinstance(h, float) and h == math.inf):
            r = minimum2(r, h)
        return num(r)
    if lo is None and hi is None:
        return a
    scal = [z for z in (lo, hi) if z is not None and is_arrlike(z)]
    if scal:
        return ew(lambda x, l, h: f(x, l, h), a, lo if lo is not None else -1e300, hi if hi is not None else 1e300)
    return ew(lambda x: f(x, lo, hi), a)


def is_arrlike(z):
    return isinstance(z, (SArr, list, tuple))


def maximum2(a, b):
    a, b = num(a), num(b)
    k = "i" if a.k == b.k == "i" else "f"
    at, bt = (a.t, b.t) if a.k == b.k else (toreal(a.t), toreal(b.t))
    return SNum(If(simp(at >= bt), at, bt), Or(a.nan, b.nan), k, True)


def minimum2(a, b):
    a, b = num(a), num(b)
    k = "i" if a.k == b.k == "i" else "f"
    at, bt = (a.t, b.t) if a.k == b.k else (toreal(a.t), toreal(b.t))
    return SNum(If(simp(at <= bt), at, bt), Or(a.nan, b.nan), k, True)
