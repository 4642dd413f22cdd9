"""Contracts of the astropy, photutils and scipy image functions petrofit calls, over symbolic values."""
import inspect
import math
import types
import z3
from . import core, arr, shim
from .core import SNum, SBool, Unsupported, And, Or, Not, If, Implies, TRUE, FALSE, num, as_num, as_bool, zint, T, simp, toreal, concrete, NAN
from .arr import SArr, SSel, SSeq, asarr, ew, C
from .shim import use, Shim


# ------------------------------------------------------- astropy.modeling

MODEL = ("a model instance owns one Parameter per name in param_names (value, default, fixed, bounds); parameters is the array of their values; fixed and bounds are "
         "dictionaries that write through to the parameters (their copies' __delitem__ does not); attribute assignment of a parameter sets its value; copy() is a deep copy; "
         "the constructor takes parameter values, name, fixed and bounds")


class Parameter:
    def __init__(self, name="", description="", default=None, unit=None, fixed=False, bounds=None, tied=False, **k):
        if k or unit is not None:
            raise Unsupported("Parameter options")
        use("astropy.modeling", MODEL)
        self.name, self.default = name, default
        self._value = core.to_float(num(default)) if default is not None else None
        self.fixed = fixed
        self.bounds = bounds if bounds is not None else (None, None)
        self.tied = tied

    def __set_name__(self, owner, name):
        self.name = name

    @property
    def value(self):
        v = self._value
        return SNum(v.t, v.nan, "f", True) if isinstance(v, SNum) else v

    @value.setter
    def value(self, v):
        if isinstance(v, SArr):
            if not all(isinstance(d, int) and d == 1 for d in v._shape):
                raise Unsupported("array parameter")
            v = v.get(*[0] * v.ndim)
        v = as_num(v)
        if v is None:
            raise TypeError("parameter value")
        self._value = core.to_float(v)

    def copy(self):
        p = Parameter.__new__(Parameter)
        p.__dict__.update(self.__dict__)
        return p

    def __deepcopy__(self, memo):
        return self.copy()

    __copy__ = copy

    def _as_snum(self):
        return self.value

    def _sym_array(self):
        v = self.value
        return SArr((), "f", lambda: v)


def _pop(name, op):
    def f(self, o):
        return getattr(self.value, name)(o.value if isinstance(o, Parameter) else o)
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "lt", "le", "gt", "ge", "eq", "ne"):
    setattr(Parameter, "__%s__" % _n, _pop("__%s__" % _n, None))
Parameter.__hash__ = object.__hash__
Parameter.__neg__ = lambda self: -self.value


class Constraints(dict):
    """the fixed / bounds dictionary of a model"""

    def __init__(self, model, what):
        self._model, self._what = model, what
        for n in model.param_names:
            dict.__setitem__(self, n, getattr(getattr(model, n), what))

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        setattr(getattr(self._model, k), self._what, v)

    def update(self, o=(), **k):
        for a, b in dict(o, **k).items():
            self[a] = b

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def copy(self):
        c = Constraints.__new__(Constraints)
        dict.update(c, self)
        c._model, c._what = self._model, self._what
        return c

    __copy__ = copy

    def __ior__(self, o):
        self.update(o)
        return self


class FittableModel:
    _param_names = ()
    n_inputs = 2
    n_outputs = 1

    def __init_subclass__(cls, **k):
        super().__init_subclass__(**k)
        own = [n for n, p in vars(cls).items() if isinstance(p, Parameter)]
        base = ()
        for b in cls.__mro__[1:]:
            if "_param_names" in vars(b):
                base = vars(b)["_param_names"]
                break
        if own:
            cls._param_names = tuple(base) + tuple(n for n in own if n not in base)

    def __init__(self, *args, name=None, meta=None, **kwargs):
        use("astropy.modeling", MODEL)
        self._name = name
        names = tuple(self.param_names)
        for n in names:
            p = self.__dict__.get(n)
            if p is None:
                p = getattr(type(self), n).copy()
                self.__dict__[n] = p
        for what in ("fixed", "tied", "bounds"):
            for k, v in kwargs.pop(what, {}).items():
                if k not in names:
                    raise AttributeError(k)
                setattr(getattr(self, k), what, v)
        kwargs.pop("eqcons", None), kwargs.pop("ineqcons", None)
        if len(args) > len(names):
            raise TypeError("too many positional arguments")
        vals = dict(zip(names, args))
        for k in list(kwargs):
            if k not in names:
                raise TypeError("__init__() got an unrecognized parameter %r" % k)
            if k in vals:
                raise TypeError("multiple values for parameter %r" % k)
            vals[k] = kwargs.pop(k)
        for n in names:
            p = getattr(self, n)
            v = vals.get(n)
            if v is None:
                v = p.default
                if v is None:
                    raise TypeError("requires a value for parameter %r" % n)
            p.value = v

    @property
    def name(self):
        return self._name

    @property
    def param_names(self):
        return self._param_names

    @property
    def parameters(self):
        vs = [getattr(self, n)._value for n in self.param_names]

        def fn(i):
            i = i if isinstance(i, int) else core.conc_int(T(i))
            if i is None:
                raise Unsupported("symbolic parameter index")
            return vs[i]
        return SArr((len(vs),), "f", fn)

    @parameters.setter
    def parameters(self, v):
        v = asarr(v)
        for k, n in enumerate(self.param_names):
            getattr(self, n).value = v.get(k)

    @property
    def fixed(self):
        return Constraints(self, "fixed")

    @property
    def bounds(self):
        return Constraints(self, "bounds")

    @property
    def tied(self):
        return Constraints(self, "tied")

    def __setattr__(self, a, v):
        names = self.param_names
        if names is not None and a in names:
            getattr(self, a).value = v.value if isinstance(v, Parameter) else v
        else:
            object.__setattr__(self, a, v)

    def copy(self):
        return dcopy(self, {})

    deepcopy = copy

    def __deepcopy__(self, memo):
        return dcopy(self, memo)

    def __call__(self, *a, **k):
        if k:
            raise Unsupported("model call with options")
        use("astropy.modeling call", "model(x, y) is the model's evaluate on x, y and its parameter values")
        ps = []
        for n in self.param_names:
            v = getattr(self, n)._value
            ps.append(SArr((1,), "f", lambda i, v=v: v))
        return self.evaluate(*a, *ps)


def dcopy(x, memo):
    """deep copy of an object holding symbolic values"""
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, (SNum, SBool, str, int, float, bool, type(None), types.FunctionType, type)) or isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, (SArr, SSel)):
        r = x.copy()
    elif isinstance(x, Parameter):
        r = x.copy()
    elif isinstance(x, FittableModel):
        r = memo[id(x)] = object.__new__(type(x))
        for k, v in x.__dict__.items():
            r.__dict__[k] = dcopy(v, memo)
        return r
    elif isinstance(x, Constraints):
        r = Constraints.__new__(Constraints)
        memo[id(x)] = r
        dict.update(r, {k: dcopy(v, memo) for k, v in x.items()})
        r._model, r._what = dcopy(x._model, memo), x._what
        return r
    elif type(x) is tuple:
        r = tuple(dcopy(v, memo) for v in x)
    elif isinstance(x, list):
        if getattr(x, "_sym", None) is not None:
            r = type(x)()
            r._sym = x._sym
            return r
        if isinstance(x, SSeq):
            return x
        r = type(x)(dcopy(v, memo) for v in list.__iter__(x))
    elif type(x).__name__ == "OrderedDict" or type(x) is dict:
        r = type(x)((k, dcopy(v, memo)) for k, v in x.items())
    elif type(x).__module__.startswith(("vc.", "petrofit")) and hasattr(x, "__dict__") and not hasattr(type(x), "__deepcopy__") and not isinstance(x, (dict, list, tuple)):
        r = memo[id(x)] = object.__new__(type(x))
        for k, v in x.__dict__.items():
            r.__dict__[k] = dcopy(v, memo)
        return r
    else:
        import copy
        r = copy.deepcopy(x)
    memo[id(x)] = r
    return r


def custom_model(*a, fit_deriv=None):
    def make(f):
        use("astropy.modeling.custom_model", "a model class whose evaluate is the decorated function and whose parameters are its keyword arguments with their defaults")
        sig = inspect.signature(f)
        pars = {n: Parameter(n, default=p.default) for n, p in sig.parameters.items() if p.default is not inspect.Parameter.empty}
        nin = len(sig.parameters) - len(pars)
        d = {"evaluate": staticmethod(f), "n_inputs": nin, "_is_custom": True}
        d.update(pars)

        def init(self, **k):
            FittableModel.__init__(self, **k)
        d["__init__"] = init
        return type(f.__name__, (FittableModel,), d)
    if len(a) == 1:
        return make(a[0])
    return make


def opaque_evaluate(cls_name):
    def evaluate(*a):
        raise Unsupported("%s.evaluate has no contract" % cls_name)
    return evaluate


def opaque_model(name, nin, **pars):
    d = {"evaluate": staticmethod(pointwise(name) if nin == 2 else opaque_evaluate(name)), "n_inputs": nin, "_opaque": True}
    for n, v in pars.items():
        d[n] = Parameter(n, default=v)
    return type(name, (FittableModel,), d)


def pointwise(cls_name):
    """evaluate of a model whose value at a point is a function of the point and the parameters"""
    def evaluate(x, y, *ps):
        use("astropy.modeling.models." + cls_name, "evaluate(x, y, *params) computes each element from that element's coordinates and the parameters only, into a new array")
        ps = [toreal(num(p.get(*[0] * p.ndim) if isinstance(p, SArr) else p).t) for p in ps]
        n = 2 + len(ps)
        f, fn = core.UF(cls_name, *([core.RS] * (n + 1))), core.UF(cls_name + "_nan", *([core.RS] * n + [core.BS]))
        return ew(lambda u, v: SNum(f(toreal(num(u).t), toreal(num(v).t), *ps), fn(toreal(num(u).t), toreal(num(v).t), *ps), "f", True), shim.raw(x), shim.raw(y), kind="f")
    return evaluate


def plane(x, y, *ps):
    use("astropy.modeling.models.Planar2D", "evaluate(x, y, a, b, c) is a*x + b*y + c elementwise, into a new array")
    a, b, c = (core.to_float(num(p.get(*[0] * p.ndim) if isinstance(p, SArr) else p)) for p in ps)
    return ew(lambda u, v: a * core.to_float(num(u)) + b * core.to_float(num(v)) + c, shim.raw(x), shim.raw(y), kind="f")


def make_models():
    m = Shim("astropy.modeling.models")
    m.Sersic2D = opaque_model("Sersic2D", 2, amplitude=1, r_eff=1, n=4, x_0=0, y_0=0, ellip=0, theta=0)
    m.Planar2D = opaque_model("Planar2D", 2, slope_x=1, slope_y=1, intercept=0)
    m.Planar2D.evaluate = staticmethod(plane)
    m.Gaussian2D = opaque_model("Gaussian2D", 2, amplitude=1, x_mean=0, y_mean=0, x_stddev=1, y_stddev=1, theta=0)
    m.Polynomial1D = opaque_model("Polynomial1D", 1)
    m.Exponential1D = opaque_model("Exponential1D", 1, amplitude=1, tau=1)
    return m


# ------------------------------------------------------------ image tools

def block_reduce(data, block_size, func=None):
    use("astropy.nddata.block_reduce", "block_reduce(a, f) has a's side lengths divided by f (rounded down); its element (J, I) is the sum of a over rows J*f..J*f+f-1 and columns I*f..I*f+f-1 (a function of a, f, J, I)")
    a = asarr(data)
    if a.ndim != 2:
        raise Unsupported("block_reduce rank")
    f = num(block_size)
    if f.k != "i":
        if not bool(SBool(f.t == z3.ToReal(core.toint_floor(f.t)))):
            raise ValueError("block_size elements must be integers")
        f = SNum(core.toint_floor(f.t), FALSE, "i")
    if not bool(SBool(f.t > 0)):
        raise ValueError("block_size elements must be strictly positive")
    sh = tuple(zint(core.n_floordiv(num(d if isinstance(d, int) else SNum(d, FALSE, "i")), f)) for d in a._shape)
    c = core.concrete(f)
    mean = func in (shim.MEAN if hasattr(shim, "MEAN") else ())
    if func is not None and not mean and not getattr(func, "_vc_sum", False):
        raise Unsupported("block_reduce function")
    if c == 1:
        r = a.copy()
    elif c is not None and c <= 4 and all(isinstance(d, int) for d in a._shape):
        g = a.snap()

        def el(J, I):
            s = num(0.0)
            for p in range(c):
                for q in range(c):
                    s = s + num(g(J * c + p if isinstance(J, int) else simp(J * c + p), I * c + q if isinstance(I, int) else simp(I * c + q)))
            return s
        r = SArr(sh, "f", el)
    else:
        r = arr.lib_array("blocksum", [a], [f], sh)
    return r / (f * f) if mean else r


def rotate(a, angle, axes=(1, 0), reshape=True, **k):
    use("scipy.ndimage.rotate", "rotate(a, angle, reshape=False) is a function of a and the angle with a's shape")
    if reshape or k or axes != (1, 0):
        raise Unsupported("rotate options")
    a = asarr(a)
    if isinstance(angle, SArr):
        angle = angle.get(*[0] * angle.ndim)
    return arr.lib_array("rotate", [a], [angle], a._shape)


def convolve(a, b, mode="full", method="auto"):
    use("scipy.signal.convolve", "convolve(a, b, mode='same') is a function of a and b with a's shape")
    if mode != "same" or method not in ("auto", "fft", "direct"):
        raise Unsupported("convolve options")
    a, b = asarr(a), asarr(b)
    return arr.lib_array("convolve_same", [a, b], [], a._shape)


def install(m):
    """add the contracts to the module table of shim.make_modules()"""
    md = m["astropy.modeling"]
    md.FittableModel, md.Parameter, md.custom_model = FittableModel, Parameter, custom_model
    mm = make_models()
    md.models = mm
    m["astropy.modeling.models"] = mm
    m["astropy.nddata"].block_reduce = block_reduce
    m["scipy.ndimage"].rotate = rotate
    m["scipy.signal"].convolve = convolve
    return m
