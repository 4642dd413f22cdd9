"""Contracts of the libraries petrofit calls, over symbolic values.

Every name that is not given a contract here is Unsupported when it is used.
`use()` records which library contracts an obligation relied on.
"""
import math
import types
import z3
from . import core, arr
from .core import (SNum, SBool, Unsupported, And, Or, Not, If, Implies, TRUE, FALSE, num, as_num, as_bool, zint, T, simp, toreal, concrete, NAN)
from .arr import SArr, SSel, SSeq, SWhere, asarr, ew, kind_of, C

USED = {}


def use(name, text):
    USED[name] = text


# --------------------------------------------------------------- unknowns

class UnkMeta(type):
    def __call__(cls, *a, **k):
        if cls.__dict__.get("_vc_unknown"):
            raise Unsupported("%s has no contract" % cls.__name__)
        return super().__call__(*a, **k)

    def __getattr__(cls, name):
        if name.startswith("__") or not cls.__dict__.get("_vc_unknown"):
            raise AttributeError(name)
        raise Unsupported("%s.%s has no contract" % (cls.__name__, name))


def unknown(name):
    return UnkMeta(name, (), {"_vc_unknown": True})


class Shim(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        u = unknown("%s.%s" % (self.__name__, name))
        setattr(self, name, u)
        return u


# ------------------------------------------------------------------ numpy

class NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SArr, SSel)) and getattr(x, "ndim", 1) is not None

    def __call__(cls, *a, **k):
        raise Unsupported("ndarray()")


class ndarray(metaclass=NdMeta):
    pass


class NScalar(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SNum) and x.np and x.k in cls._kinds

    def __call__(cls, x=0):
        return to_np(arr.cast_scalar(x if isinstance(x, (SNum, SBool)) else num(x), cls._np_kind))


def to_np(x):
    return SNum(x.t, x.nan, x.k, True) if isinstance(x, SNum) else x


def scalar_type(name, kinds, npk):
    return NScalar(name, (), {"_kinds": kinds, "_np_kind": npk})


np_integer = scalar_type("integer", "i", "i")
np_floating = scalar_type("floating", "f", "f")
np_number = scalar_type("number", "if", None)
np_int64 = scalar_type("int64", "i", "i")
np_float64 = scalar_type("float64", "f", "f")
np_bool = type("bool_", (), {"_np_kind": "b"})


def raw(x):
    """argument of a numpy function as array or scalar"""
    if isinstance(x, (SArr, SSel, SNum, SBool, bool, int, float)) or x is None:
        return x
    if hasattr(x, "_sym_array"):
        return x._sym_array()
    return asarr(x)


def np_array(x, dtype=None, copy=True, **k):
    if k:
        raise Unsupported("np.array(%s)" % list(k))
    if isinstance(x, SSel):
        r = x.copy()
        return r if dtype is None else r.astype(dtype)
    a = asarr(x)
    r = a.copy() if copy else a
    return r if dtype is None else r.astype(dtype)


def np_asarray(x, dtype=None, **k):
    a = x if isinstance(x, (SArr, SSel)) else asarr(x)
    if dtype is not None and kind_of(dtype) != a._k:
        return a.astype(dtype)
    return a


def const_like(v):
    def f(a, dtype=None, **k):
        a = asarr(a)
        kk = kind_of(dtype) or a._k
        e = arr.cast_el(num(v), kk)
        return SArr(a._shape, kk, lambda *i: e)
    return f


def dims(shape):
    if isinstance(shape, (int, SNum)):
        return (zint(shape),)
    return tuple(zint(d) for d in shape)


def const_new(v):
    def f(shape, dtype=float, **k):
        kk = kind_of(dtype)
        e = arr.cast_el(num(v), kk)
        return SArr(dims(shape), kk, lambda *i: e)
    return f


def np_full(shape, v, dtype=None):
    kk = kind_of(dtype) or arr.el_kind(v)
    e = arr.cast_el(num(v), kk)
    return SArr(dims(shape), kk, lambda *i: e)


def np_full_like(a, v, dtype=None):
    a = asarr(a)
    kk = kind_of(dtype) or a._k
    e = arr.cast_el(num(v), kk)
    return SArr(a._shape, kk, lambda *i: e)


def np_where(c, a=None, b=None):
    if a is None and b is None:
        return arr.where_(c)
    return ew(lambda c, a, b: arr.ite_el(as_bool(c).t, num(a), num(b)), raw(c), raw(a), raw(b))


def np_diff(a, n=1, axis=-1):
    use("numpy.diff", "diff(a)[i] == a[i+1] - a[i]")
    a = asarr(a)
    if n != 1 or a.ndim != 1 or isinstance(a, SSel):
        raise Unsupported("np.diff")
    return a[1:] - a[:-1]


def np_insert(a, obj, values, axis=None):
    use("numpy.insert", "insert(a, p, v) holds a's items in order with v at position p")
    a = asarr(a)
    if a.ndim != 1 or not isinstance(obj, int) or arr.is_arrlike(values):
        raise Unsupported("np.insert")
    n = a._shape[0]
    p = obj if obj >= 0 else zint(simp(T(n) + obj))
    v = arr.cast_el(num(values), a._k)
    g = a.snap()

    def fn(i):
        c = simp(T(i) == T(p))
        if core.is_true(c):
            return v
        lo = C().decide_quick(T(i) < T(p))
        if lo is True:
            return g(i)
        hi = C().decide_quick(T(i) > T(p))
        one = zint(simp(T(i) - 1))
        if hi is True:
            return g(one)
        if isinstance(p, int) and p == 0:
            return arr.ite_el(c, v, g(one))
        return arr.ite_el(c, v, arr.ite_el(simp(T(i) < T(p)), g(i), g(one)))
    return SArr((zint(simp(T(n) + 1)) if not isinstance(n, int) else n + 1,), a._k, fn)


def np_concatenate(parts, axis=0):
    parts = [asarr(p) for p in parts]
    if axis != 0 or any(p.ndim != 1 for p in parts):
        raise Unsupported("np.concatenate")
    k = arr.join_kind(*[p._k for p in parts])
    gs = [p.snap() for p in parts]
    offs, tot = [], z3.IntVal(0)
    for p in parts:
        offs.append(simp(tot))
        tot = tot + T(p._shape[0])

    def fn(i):
        e = arr.cast_el(gs[-1](simp(T(i) - offs[-1])), k)
        for j in range(len(parts) - 2, -1, -1):
            c = simp(T(i) < offs[j + 1])
            d = C().decide_quick(c)
            if d is False:
                continue
            v = arr.cast_el(gs[j](simp(T(i) - offs[j])), k)
            e = v if d is True else arr.ite_el(c, v, e)
        return e
    return SArr((zint(simp(tot)),), k, fn)


def np_append(a, v, axis=None):
    v = asarr(v)
    if v.ndim == 0:
        e = v.get()
        v = SArr((1,), v._k, lambda i: e)
    return np_concatenate([a, v])


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    use("numpy.unique", "sorted distinct values u; index[j] is the first position of u[j]; a[i] == u[inverse[i]]")
    a = asarr(a)
    if a.ndim != 1 or isinstance(a, SSel) or return_counts or k:
        raise Unsupported("np.unique")
    c = C()
    key = ("unique", arr.token(a))
    if key not in c.memo_lib:
        n = a._shape[0]
        m = c.fresh_int("nuniq")
        idx = z3.Function(c.fresh("uidx"), core.IS, core.IS)
        inv = z3.Function(c.fresh("uinv"), core.IS, core.IS)
        g = a.snap()
        v = lambda i: num(g(i)).t

        def per_i(i):
            p = idx(inv(T(i)))
            c.touch(p)
            return And(inv(T(i)) >= 0, inv(T(i)) < m, p >= 0, p <= T(i), v(p) == v(i))
        tn, tj = "unique_inverse_%d" % len(c.memo_lib), "unique_index_%d" % len(c.memo_lib)
        def inverse():
            c.uni([n], per_i, [tn])
            c.uni([n, n], lambda i, j: Implies(T(j) < idx(inv(T(i))), v(j) != v(i)), [tn, src_tag(a)])
        c.uni([m], lambda j: And(idx(T(j)) >= 0, idx(T(j)) < T(n), inv(idx(T(j))) == T(j)), [tj])
        c.uni([m, m], lambda j, l: Implies(T(j) < T(l), v(idx(T(j))) < v(idx(T(l)))), [tj, tj])
        c.fact(And(m >= 0, m <= T(n), Implies(T(n) >= 1, m >= 1)))

        def at(j):
            j = T(j)
            c.fact(Implies(And(j >= 0, j < m), And(idx(j) >= 0, idx(j) < T(n), inv(idx(j)) == j)))
            return idx(j)
        c.memo_lib[key] = (SArr((m,), a._k, lambda j: SNum(v(at(j)), FALSE, a._k)),
                           SArr((m,), "i", lambda j: SNum(at(j), FALSE, "i"), name=tj),
                           SArr((n,), "i", lambda i: SNum(inv(T(i)), FALSE, "i"), name=tn), [inverse])
    u, i1, i2, todo = c.memo_lib[key]
    if return_inverse and todo:
        todo.pop()()
    r = [u.copy()]
    if return_index:
        r.append(i1.copy())
    if return_inverse:
        r.append(i2.copy())
    return r[0] if len(r) == 1 else tuple(r)


def src_tag(a):
    """tag of the index terms of the input array behind `a`, if there is just one"""
    return None


def un(f):
    """unary elementwise function"""
    def g(x, *a, **k):
        if a or k:
            raise Unsupported("ufunc options")
        x = raw(x)
        if isinstance(x, float) and math.isinf(x):
            return num_inf(f, x)
        return ew(lambda e: f(num(e)), x)
    return g


def num_inf(f, x):
    if f is core.f_exp:
        return num(0.0) if x < 0 else x
    if f is core.f_sqrt and x > 0:
        return x
    raise Unsupported("function of infinity")


def np_isnan(x):
    x = raw(x)
    if isinstance(x, float):
        return math.isnan(x)
    if isinstance(x, (SArr, SSel)) and x._k == "o":
        raise TypeError("ufunc 'isnan' not supported for the input types")
    if x is None or isinstance(x, str):
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return ew(lambda e: SBool(num(e).nan), x)


def np_isfinite(x):
    def f(e):
        e = num(e)
        if any(n in e.t.sexpr() for n in ("(log10", "(ln")):
            raise Unsupported("isfinite of a logarithm")
        return SBool(Not(e.nan))
    return ew(f, raw(x))


def np_round(x, decimals=0, **k):
    return ew(lambda e: arr.round_(e, decimals), raw(x))


def np_clip(a, lo=None, hi=None, **k):
    return arr.clip_(raw(a), raw(lo) if lo is not None else None, raw(hi) if hi is not None else None)


def np_any(a, axis=None, **k):
    a = raw(a)
    if isinstance(a, (SNum, SBool, bool, int, float)):
        return as_bool(a)
    return arr.any_(a if a._k == "b" else ew(lambda e: as_bool(e), a), axis)


def np_all(a, axis=None, **k):
    a = raw(a)
    if isinstance(a, (SNum, SBool, bool, int, float)):
        return as_bool(a)
    return arr.all_(a if a._k == "b" else ew(lambda e: as_bool(e), a), axis)


def np_linspace(a, b, num=50, endpoint=True, dtype=None, **k):
    use("numpy.linspace", "linspace(a, b, m)[i] == a + i*(b-a)/(m-1)")
    if k or not endpoint:
        raise Unsupported("linspace options")
    a, b = core.to_float(a), core.to_float(b)
    m = zint(num)

    def fn(i):
        i = T(i)
        return to_np(a + SNum(z3.ToReal(i), FALSE, "f") * ((b - a) / SNum(z3.ToReal(T(m) - 1), FALSE, "f", True)))
    C().run.note_mono = True
    r = SArr((m,), "f", fn)
    r._linspace = (a, b, m)
    return r


def np_logspace(a, b, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    use("numpy.logspace", "logspace(a, b, m)[i] == base**(a + i*(b-a)/(m-1))")
    if axis not in (0, -1):
        raise ValueError("axis %r is out of bounds for array of dimension 1" % (axis,))
    lin = np_linspace(a, b, num, endpoint)
    g = lin.snap()
    bb = core.num(float(base)) if not isinstance(base, SNum) else base
    return SArr(lin._shape, "f", lambda i: to_np(bb ** g(i)))


def np_arange(*a, dtype=None):
    use("numpy.arange", "arange(a, b, s) has ceil((b-a)/s) items a + i*s")
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    lo, hi, st = num(lo), num(hi), num(st)
    k = "i" if lo.k == hi.k == st.k == "i" else "f"
    q = (hi - lo) / SNum(st.t, st.nan, st.k, True)
    t = simp(toreal(q.t))
    n = ceil_t(t)
    nn = C().decide_quick(n >= 0)
    if nn is not True:
        n = If(n >= 0, n, z3.IntVal(0))
    kk = kind_of(dtype) or k

    def fn(i):
        e = lo + num(T(i) if not isinstance(i, int) else i) * st
        return arr.cast_el(e, kk)
    return SArr((zint(simp(n)),), kk, fn)


def ceil_t(t):
    """integer ceiling of a real term, in a form solvers like"""
    t = simp(t)
    c = core.conc_int(t)
    if c is not None:
        return z3.IntVal(c)
    if core.lit(t):
        return z3.IntVal(math.ceil(t.as_fraction()))
    # ToReal(int) + literal
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    parts = t.children() if z3.is_add(t) else [t]
    lits = [p for p in parts if core.lit(p)]
    rest = [p for p in parts if not core.lit(p)]
    ints = [int_of(p) for p in rest]
    if all(i is not None for i in ints) and ints:
        f = sum((p.as_fraction() for p in lits), 0)
        s = ints[0]
        for i in ints[1:]:
            s = s + i
        return simp(s + math.ceil(f))
    return -core.toint_floor(simp(-t))


def int_of(t):
    """Int term equal to a real term built from integers, or None"""
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    c = core.conc_int(t) if core.lit(t) else None
    if c is not None:
        return z3.IntVal(c)
    if z3.is_mul(t) or z3.is_add(t):
        ps = [int_of(p) for p in t.children()]
        if any(p is None for p in ps):
            return None
        r = ps[0]
        for p in ps[1:]:
            r = r * p if z3.is_mul(t) else r + p
        return r
    return None


def np_meshgrid(*a, **k):
    use("numpy.meshgrid", "meshgrid(x, y) == (x[col], y[row])")
    if k or len(a) != 2:
        raise Unsupported("meshgrid options")
    x, y = asarr(a[0]), asarr(a[1])
    gx, gy = x.snap(), y.snap()
    sh = (y._shape[0], x._shape[0])
    return [SArr(sh, x._k, lambda j, i: gx(i)), SArr(sh, y._k, lambda j, i: gy(j))]


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    use("numpy.allclose", "allclose(a, b) iff |a-b| <= atol + rtol*|b| everywhere")
    return np_all(np_isclose(a, b, rtol, atol))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    rtol, atol = num(rtol), num(atol)
    return ew(lambda x, y: abs(num(x) - num(y)) <= atol + rtol * abs(num(y)), raw(a), raw(b))


def np_result_type(*a):
    ks = []
    for x in a:
        x = raw(x)
        ks.append(x._k if isinstance(x, (SArr, SSel)) else arr.el_kind(x))
    return arr.DT[arr.join_kind(*ks)]


def np_issubdtype(a, b):
    if a in (bool,) or a is None or isinstance(a, str):
        return False
    if isinstance(a, arr.DType):
        k = {"f": "f", "i": "i"}.get(a.kind)
    elif isinstance(a, type):
        k = {int: "i", float: "f"}.get(a) or getattr(a, "_np_kind", None)
        if k == "b":
            return False
        if k is None and not isinstance(a, NScalar):
            return False
    else:
        raise Unsupported("issubdtype")
    if b is np_number:
        return k in ("i", "f")
    if b is np_integer:
        return k == "i"
    if b is np_floating:
        return k == "f"
    raise Unsupported("issubdtype")


def np_reduce(name):
    def f(a, axis=None, **k):
        a = raw(a)
        if isinstance(a, (list, tuple)):
            a = asarr(a)
        if isinstance(a, (SNum, int, float)):
            return num(a)
        if k:
            raise Unsupported("%s options" % name)
        return getattr(a, name)() if axis is None else getattr(a, name)(axis=axis)
    return f


def bin_(f):
    def g(a, b, **k):
        return ew(f, raw(a), raw(b))
    return g


def np_floor(x):
    return ew(lambda e: SNum(toreal(core.toint_floor(num(e).t)), num(e).nan, "f", True), raw(x))


def np_ceil(x):
    return ew(lambda e: SNum(toreal(ceil_t(toreal(num(e).t))), num(e).nan, "f", True), raw(x))


def np_abs(x):
    return ew(lambda e: abs(num(e)), raw(x))


def np_sign(x):
    return ew(lambda e: SNum(If(num(e).t > 0, num_t(1), If(num(e).t < 0, num_t(-1), num_t(0))), num(e).nan, num(e).k, True), raw(x))


def num_t(v):
    return z3.RealVal(v)


PI = None


def pi():
    return SNum(z3.Real("pi"), FALSE, "f")


def np_deg2rad(x):
    if getattr(x, "_is_unit", False):
        return x.to("rad")
    return ew(lambda e: num(e) * pi() / num(180), raw(x))


def np_rad2deg(x):
    if getattr(x, "_is_unit", False):
        return x.to("deg")
    return ew(lambda e: num(e) * num(180) / pi(), raw(x))


def np_log2ish(name):
    return un(lambda e: core.f_log(e, name))


def np_nan_to_num(*a, **k):
    raise Unsupported("nan_to_num")


def np_invert(a):
    return ~asarr(a) if not isinstance(a, (SBool, SSel)) else ~a


def np_nonzero(a):
    return arr.where_(a)


def np_power(a, b):
    return raw(a) ** raw(b)


def np_nanred(name):
    def f(a, **k):
        if k:
            raise Unsupported(name)
        a = asarr(a)
        return arr.lib_scalar(name, [a])
    return f


class IInfo:
    def __getitem__(self, k):
        raise Unsupported("np.s_")


def make_numpy():
    n = Shim("numpy")
    d = dict(
        ndarray=ndarray, nan=math.nan, inf=math.inf, newaxis=None, integer=np_integer, floating=np_floating, number=np_number,
        int64=np_int64, int32=np_int64, int_=np_int64, float64=np_float64, float32=np_float64, bool_=np_bool,
        array=np_array, asarray=np_asarray, asanyarray=np_asarray, atleast_1d=lambda x: asarr(x) if asarr(x).ndim else const_1(x),
        copy=lambda a, **k: np_array(a), zeros_like=const_like(0), ones_like=const_like(1), zeros=const_new(0), ones=const_new(1), empty_like=None,
        full=np_full, full_like=np_full_like, where=np_where, nonzero=np_nonzero, diff=np_diff, insert=np_insert, concatenate=np_concatenate, append=np_append,
        unique=np_unique, isnan=np_isnan, isfinite=np_isfinite, sqrt=un(core.f_sqrt), exp=un(core.f_exp), log10=np_log2ish("log10"), log=np_log2ish("ln"),
        sin=un(core.f_sin), cos=un(core.f_cos), round=np_round, around=np_round, rint=np_round, clip=np_clip, any=np_any, all=np_all,
        linspace=np_linspace, logspace=np_logspace, arange=np_arange, meshgrid=np_meshgrid, allclose=np_allclose, isclose=np_isclose,
        result_type=np_result_type, issubdtype=np_issubdtype, mean=np_reduce("mean"), std=np_reduce("std"), sum=np_reduce("sum"), min=np_reduce("min"),
        max=np_reduce("max"), amin=np_reduce("min"), amax=np_reduce("max"), argmin=np_reduce("argmin"), argmax=np_reduce("argmax"), argsort=np_reduce("argsort"),
        maximum=bin_(arr.maximum2), minimum=bin_(arr.minimum2), floor=np_floor, ceil=np_ceil, abs=np_abs, absolute=np_abs, fabs=np_abs, sign=np_sign,
        deg2rad=np_deg2rad, radians=np_deg2rad, rad2deg=np_rad2deg, degrees=np_rad2deg, invert=np_invert, logical_not=np_invert,
        logical_and=bin_(lambda a, b: as_bool(a) & as_bool(b)), logical_or=bin_(lambda a, b: as_bool(a) | as_bool(b)),
        power=np_power, square=un(lambda e: e * e), add=bin_(arr.OPS["add"]), subtract=bin_(arr.OPS["sub"]), multiply=bin_(arr.OPS["mul"]),
        divide=bin_(arr.OPS["truediv"]), true_divide=bin_(arr.OPS["truediv"]), floor_divide=bin_(arr.OPS["floordiv"]), mod=bin_(arr.OPS["mod"]),
        nanstd=np_nanred("nanstd"), nanmean=np_nanred("nanmean"), nanmax=np_nanred("nanmax"), nanmin=np_nanred("nanmin"), ndim=lambda a: asarr(a).ndim,
        shape=lambda a: asarr(a).shape, size=lambda a: asarr(a).size, isscalar=lambda a: isinstance(a, (SNum, int, float)),
        hypot=bin_(lambda a, b: core.f_sqrt(num(a) * num(a) + num(b) * num(b))), squeeze=lambda a: asarr(a).squeeze(),
        array_equal=lambda a, b: array_equal(a, b), float=float, bool=bool,
    )
    d.pop("empty_like")
    for k, v in d.items():
        setattr(n, k, v)
    n.__class__ = NumpyShim
    ma = Shim("numpy.ma")
    ma.getdata = lambda a: asarr(a)
    ma.filled = lambda a, v=None: asarr(a)
    n.ma = ma
    n.random = Shim("numpy.random")
    n.random.randint = lambda *a, **k: SNum(C().fresh_int("rand"), FALSE, "i")
    class errstate:
        def __init__(self, **k): pass
        def __enter__(self): return self
        def __exit__(self, *a): return False
    n.errstate = errstate
    return n


class NumpyShim(Shim):
    @property
    def pi(self):
        c = C()
        if c is not None:
            c.fact(And(z3.Real("pi") > z3.Q(314159, 100000), z3.Real("pi") < z3.Q(314160, 100000)))
        return pi()


def const_1(x):
    e = num(x)
    return SArr((1,), e.k, lambda i: e)


def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    s = arr.same_shape(a._shape, b._shape)
    if s is False:
        return False
    return arr.all_(a == b)


# ------------------------------------------------------------------ scipy

KINDS = ("zero", "slinear", "quadratic", "cubic", "linear", "nearest", "nearest-up", "previous", "next")


class interp1d:
    """uninterpreted function of (x, y, kind); defined inside [min x, max x]"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        use("scipy.interpolate.interp1d", "a function of the data arrays, kind and argument only; ValueError outside the data range; the value at the argument for every supported kind")
        if bounds_error is not None or fill_value is not None:
            raise Unsupported("interp1d options")
        self.x, self.y = asarr(x), asarr(y)
        if kind is None or (isinstance(kind, str) and kind not in KINDS):
            raise NotImplementedError("%s is unsupported: Use fitpack routines for other types." % (kind,))
        if self.x.ndim != 1 or self.y.ndim != 1:
            raise Unsupported("interp1d rank")
        e = arr.deq(self.x._shape[0], self.y._shape[0])
        if e is not True and not bool(SBool(T(self.x._shape[0]) == T(self.y._shape[0]))):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        self.kind = kind
        self.tx, self.ty = arr.token(self.x), arr.token(self.y)
        self.lo, self.hi = arr.minmax(self.x, True), arr.minmax(self.x, False)
        k = kind if isinstance(kind, (str, int)) else repr_kind(kind)
        self.name = "interp[%s,%d,%d]" % (k, self.tx, self.ty)

    def nearest(self, e):
        """kind nearest: the index whose value is returned"""
        t = toreal(num(e).t)
        n = self.x._shape[0]
        k = core.UF("nearest[%d]" % self.tx, core.RS, core.IS)(t)
        c = C()
        d = lambda i: toreal(num(self.x.get(i)).t) - t
        gap = lambda i: If(d(i) >= 0, d(i), -d(i))
        key = ("nearest", self.tx, k.get_id())
        if key not in c.memo_lib:
            c.memo_lib[key] = k
            use("interp1d kind nearest", "the value of a data point whose abscissa is nearest to the argument")
            c.fact(And(k >= 0, k < T(n)))
            c.uni([n], lambda j: gap(k) <= gap(j))
            c.touch(k)
        return k

    def val(self, e):
        t = toreal(num(e).t)
        if self.kind == "nearest" and not num(e).nan.eq(TRUE):
            y = core.to_float(num(self.y.get(self.nearest(e))))
            return SNum(y.t, simp(Or(num(e).nan, y.nan)), "f", True)
        r = core.rf(self.name, t)
        return SNum(r, num(e).nan, "f", True)

    def inside(self, e):
        e = num(e)
        return And(toreal(e.t) >= toreal(self.lo.t), toreal(e.t) <= toreal(self.hi.t))

    def __call__(self, x):
        x = raw(x)
        if isinstance(x, (SArr, SSel)) and not (isinstance(x, SArr) and x.ndim == 0):
            ls = getattr(x, "_linspace", None)
            ok = False
            if ls is not None and C().decide(And(toreal(ls[0].t) >= toreal(self.lo.t), toreal(ls[1].t) <= toreal(self.hi.t), toreal(ls[0].t) <= toreal(ls[1].t), T(ls[2]) >= 2)) is True:
                use("lemma linspace-range", "the points of linspace(a, b) lie in [a, b] when a <= b (convexity; discharged as C26.lemma)")
                ok = True
            if not ok:
                g = x.snap()
                out = arr.any_(SArr(x._shape, "b", lambda *i: SBool(And(Not(num(g(*i)).nan), Not(self.inside(g(*i)))))))
                if bool(out):
                    raise ValueError("A value in x_new is outside the interpolation range.")
            return ew(self.val, x)
        if isinstance(x, SArr):
            x = x.get()
        x = num(x)
        if bool(SBool(And(Not(x.nan), Not(self.inside(x))))):
            raise ValueError("A value in x_new is outside the interpolation range.")
        r = self.val(x)
        return SArr((), "f", lambda: r)


def repr_kind(k):
    if isinstance(k, SNum):
        c = concrete(k)
        if c is not None:
            return c
        return str(simp(k.t))
    return getattr(k, "_vc_name", None) or repr(k)


def gammainc_(a, x):
    """regularised lower incomplete gamma function P(a, x)"""
    use("scipy.special.gammainc", "P(a,0)=0, 0<=P<1 increasing in x, P(a,inf)=1, gammaincinv(a, .) is its inverse on [0,1); d/dx P = x^(a-1) e^-x / Gamma(a)")
    a = num(a)
    if isinstance(x, float) and math.isinf(x):
        return num(1.0)
    x = num(x)
    at, xt = toreal(a.t), toreal(x.t)
    r = core.rf("gammainc", at, xt)
    c = C()
    c.fact(And(Implies(And(at > 0, xt > 0), And(r > 0, r < 1)), Implies(And(at > 0, xt == 0), r == 0)))
    # inverse
    y = core.rf("gammaincinv", at, r)
    c.fact(Implies(And(at > 0, xt >= 0), y == xt))
    if z3.is_app(xt) and xt.decl().name() == "gammaincinv" and xt.arg(0).eq(at):
        q = xt.arg(1)
        c.fact(Implies(And(at > 0, q >= 0, q < 1), r == q))
    gams(c).append((at, r))
    return SNum(r, Or(a.nan, x.nan), "f", True)


def gams(c):
    """the values of P met on this path"""
    if not hasattr(c, "_gams"):
        c._gams = []
    return c._gams


def gammaincinv_(a, y):
    use("scipy.special.gammainc", "P(a,0)=0, 0<=P<1 increasing in x, P(a,inf)=1, gammaincinv(a, .) is its inverse on [0,1); d/dx P = x^(a-1) e^-x / Gamma(a)")
    a, y = num(a), num(y)
    at, yt = toreal(a.t), toreal(y.t)
    r = core.rf("gammaincinv", at, yt)
    c = C()
    c.fact(Implies(And(at > 0, yt > 0, yt < 1), r > 0))
    c.fact(Implies(And(at > 0, yt == 0), r == 0))
    c.fact(Implies(And(at > 0, yt >= 0, yt < 1), core.rf("gammainc", at, r) == yt))
    if not core.lit(yt):
        from .prove import eq_terms
        for b, q in gams(c):
            if not q.eq(yt) and eq_terms(c, at, b) and eq_terms(c, q, yt):
                c.fact(q == yt)
                break
    return SNum(r, Or(a.nan, y.nan), "f", True)


def gamma_(a):
    use("scipy.special.gamma", "Gamma(a) > 0 for a > 0")
    a = num(a)
    r = core.rf("gamma", toreal(a.t))
    C().fact(Implies(toreal(a.t) > 0, r > 0))
    return SNum(r, a.nan, "f", True)


def bcast(f):
    def g(*a):
        return ew(f, *[raw(x) if not (isinstance(x, float) and math.isinf(x)) else x for x in a])
    return g


# ------------------------------------------------------------- matplotlib

class Plot:
    """drawing: accepts anything, returns drawing objects, touches no data; every call is logged in the context (.draws)"""
    _is_plot = True

    def __init__(self, n=None, path=("?",)):
        self.__dict__["_n"] = n
        self.__dict__["_path"] = path

    def __call__(self, *a, **k):
        drew(self._path, a, k)
        return Plot(None, self._path + ("()",))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Plot(None, self._path + (name,))

    def __setattr__(self, k, v):
        drew(self._path + (k + "=",), (v,), {})

    def __getitem__(self, k):
        if self.__dict__["_n"] == 0:
            raise TypeError("'Axes' object is not subscriptable")
        return Plot(None, self._path + (k if isinstance(k, int) and k >= 0 else "[]",))

    def __iter__(self):
        n = self.__dict__["_n"]
        if n == 0:
            raise TypeError("cannot unpack non-iterable Axes object")
        return iter([Plot(None, self._path + (i,)) for i in range(2 if n is None else n)])

    def __len__(self):
        return self.__dict__["_n"] or 3


def drew(path, a, k):
    try:
        c = C()
    except Exception:
        return
    if c is None:
        return
    if not hasattr(c, "draws"):
        c.draws = []
    c.draws.append((path, a, k))


def subplots(nrows=1, ncols=1, **k):
    use("matplotlib", "drawing functions do not change the arrays they are given and return drawing objects only")
    n = nrows * ncols
    if nrows > 1 and ncols > 1:
        raise Unsupported("a grid of axes")
    return (Plot(None, ("fig",)), Plot(0, ("ax",)) if n == 1 else Plot(ncols if nrows == 1 else nrows, ("ax",)))


def make_modules():
    m = {}
    np_ = make_numpy()
    m["numpy"] = np_
    m["numpy.ma"] = np_.ma
    sp = Shim("scipy")
    si = Shim("scipy.interpolate")
    si.interp1d = interp1d
    ss = Shim("scipy.special")
    ss.gammainc, ss.gammaincinv, ss.gamma = bcast(gammainc_), bcast(gammaincinv_), bcast(gamma_)
    sn, sg = Shim("scipy.ndimage"), Shim("scipy.signal")
    sp.interpolate, sp.special, sp.ndimage, sp.signal = si, ss, sn, sg
    m.update({"scipy": sp, "scipy.interpolate": si, "scipy.special": ss, "scipy.ndimage": sn, "scipy.signal": sg})
    mp = Shim("matplotlib")
    mpp = types.ModuleType("matplotlib.pyplot")

    class PyPlot(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            use("matplotlib", "drawing functions do not change the arrays they are given and return drawing objects only")
            return Plot(None, ("plt", name))
    mpp = PyPlot("matplotlib.pyplot")
    mpp.subplots = subplots
    mp.pyplot = mpp
    m.update({"matplotlib": mp, "matplotlib.pyplot": mpp})
    names = ["astropy", "astropy.units", "astropy.wcs", "astropy.wcs.utils", "astropy.coordinates", "astropy.nddata", "astropy.stats", "astropy.utils",
             "astropy.utils.exceptions", "astropy.utils.console", "astropy.modeling", "astropy.modeling.models", "astropy.modeling.fitting", "astropy.modeling.optimizers",
             "astropy.convolution", "astropy.convolution.utils", "astropy.table", "photutils", "photutils.aperture", "photutils.segmentation", "photutils.isophote"]
    for n in names:
        m.setdefault(n, Shim(n))
    for n in names:
        if "." in n:
            p, _, c = n.rpartition(".")
            setattr(m[p], c, m[n])
    m["astropy.utils.exceptions"].AstropyWarning = Warning
    m["astropy.modeling.optimizers"].DEFAULT_EPS = 2.0 ** -26
    m["astropy.modeling.optimizers"].DEFAULT_ACC = 1e-7
    return m
