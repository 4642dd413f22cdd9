"""Contracts of the astropy fitters, sigma clipping, masked arrays, image containers and discretize_model."""
import z3
from . import core, arr, shim, astro
from .core import SNum, SBool, Unsupported, And, Or, Not, TRUE, FALSE, num, as_bool, as_num, zint, T, simp
from .arr import SArr, SSel, asarr, ew
from .shim import use, Shim


# ------------------------------------------------------------ masked arrays

class MArr:
    """a masked array: data and mask of the same shape"""
    _is_masked = True

    def __init__(self, data, mask):
        use("numpy.ma", "a masked array is data plus a mask; elementwise functions act on the data and keep the mask; getdata, getmaskarray and filled(v) are data, mask and where(mask, v, data); nonzero treats masked entries as zero")
        self.data_, self.mask_ = data, mask

    @property
    def data(self):
        return self.data_

    @property
    def mask(self):
        return self.mask_

    @property
    def shape(self):
        return self.data_.shape

    @property
    def ndim(self):
        return self.data_.ndim

    @property
    def dtype(self):
        return self.data_.dtype

    def filled(self, v):
        return ew(lambda m, d: arr.ite_el(as_bool(m).t, v if self.data_._k == "b" else num(v), d) if self.data_._k != "b" else SBool(core.If(as_bool(m).t, as_bool(v).t, as_bool(d).t)), self.mask_, self.data_)

    def copy(self):
        return MArr(self.data_.copy(), self.mask_.copy())

    def __invert__(self):
        return MArr(~self.data_, self.mask_)

    def __getitem__(self, k):
        return MArr(self.data_[k], self.mask_[k])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("masked array .%s" % name)

    def _sym_array(self):
        raise Unsupported("masked array")

    def __bool__(self):
        raise ValueError("The truth value of an array is ambiguous")

    def __and__(self, o):
        if isinstance(o, MArr):
            return MArr(self.data_ & o.data_, self.mask_ | o.mask_)
        return MArr(self.data_ & o, self.mask_)

    def __or__(self, o):
        if isinstance(o, MArr):
            return MArr(self.data_ | o.data_, self.mask_ | o.mask_)
        return MArr(self.data_ | o, self.mask_)


def masked(f, name):
    """numpy function that keeps the mask"""
    def g(x, *a, **k):
        if isinstance(x, MArr):
            if a or k:
                raise Unsupported("%s options" % name)
            return MArr(f(x.data_), x.mask_)
        return f(x, *a, **k)
    return g


def getdata(a, *r, **k):
    return a.data_ if isinstance(a, MArr) else asarr(a)


def getmaskarray(a):
    if isinstance(a, MArr):
        return a.mask_
    a = asarr(a)
    return SArr(a._shape, "b", lambda *i: SBool(FALSE))


def nomask_is(a):
    return getmaskarray(a)


def filled(a, v=None):
    if isinstance(a, MArr):
        if v is None:
            raise Unsupported("filled() with the default fill value")
        return a.filled(v)
    return asarr(a)


def where_m(f):
    def g(c, *r):
        if isinstance(c, MArr):
            if r:
                raise Unsupported("where of masked arrays")
            return arr.where_(filled(c, False))
        return f(c, *r)
    return g


# ------------------------------------------------------------------ fitters

class Fit:
    pass


CALLS = []


class Fitter:
    """records its call; returns a copy of the model with fitted parameters, changing nothing it is given"""
    _iterative = True

    def __init__(self, calc_uncertainties=False, **k):
        use("astropy.modeling.fitting", "a fitter called with (model, x, y, z, weights and its options) returns a copy of the model with the fitted parameter values; it changes none of its arguments")
        if k:
            raise Unsupported("fitter options")
        self.calc, self.calls = calc_uncertainties, []
        self.fit_info = {}

    def __call__(self, model, x, y=None, z=None, weights=None, **opts):
        bad = set(opts) - self._opts
        if bad:
            raise TypeError("got an unexpected keyword argument %r" % sorted(bad)[0])
        c = Fit()
        c.model, c.x, c.y, c.z, c.weights, c.opts = model, x, y, z, weights, opts
        c.state = {n: (getattr(model, n).value, model.fixed[n], model.bounds[n]) for n in model.param_names}
        self.calls.append(c)
        c.out = model.copy()
        c.fitted = {}
        for n in c.out.param_names:
            c.fitted[n] = SNum(z3.FreshConst(z3.RealSort(), "fit_" + n), FALSE, "f", True)
            setattr(c.out, n, c.fitted[n])
        return c.out


def fitter(name, opts):
    return type(name, (Fitter,), {"_opts": set(opts)})


ITER = ["maxiter", "acc", "epsilon", "estimate_jacobian", "filter_non_finite", "inplace"]


# ------------------------------------------------------------------- others

def sigma_clip(data, sigma=3, **k):
    use("astropy.stats.sigma_clip", "sigma_clip(image, sigma) is a masked array with a copy of the image's values whose mask is true on a set of pixels that depends on the image and sigma only, and on every pixel that is not a number")
    if k:
        raise Unsupported("sigma_clip options")
    if isinstance(data, MArr):
        raise Unsupported("sigma_clip of a masked array")
    a = asarr(data)
    cut = arr.lib_array("outlier", [a], [num(sigma)], a._shape, k="i", nan=FALSE)
    g = a.snap()
    return MArr(a.copy(), SArr(a._shape, "b", lambda *i: SBool(Or(num(g(*i)).nan, cut.get(*i).t != 0))))


class CCDData:
    def __init__(self, data):
        self.data = data

    @property
    def shape(self):
        return self.data.shape


from .phot import Cutout2D


RENDERS = []


def discretize_model(model, x_range, y_range=None, mode="center", factor=10):
    use("astropy.convolution.utils.discretize_model", "the ranges must span whole numbers (else ValueError); the image has y1-y0 rows and x1-x0 columns; with mode 'center' pixel (j, i) is the model at (x0+i, y0+j); other modes give an image that depends on the model, the ranges, mode and factor")
    if y_range is None:
        raise Unsupported("one-dimensional rendering")
    if isinstance(mode, str) and mode not in ("center", "linear_interp", "oversample", "integrate"):
        raise ValueError("Invalid mode for discretize_model.")
    dims, org = [], []
    for r in (x_range, y_range):
        a, b = num(r[0]), num(r[1])
        d = b - a
        if d.k != "i":
            whole = d.t == z3.ToReal(core.toint_floor(d.t))
            if not bool(SBool(simp(whole))):
                raise ValueError("The difference between the upper and lower limit must be a whole number.")
            d = SNum(simp(core.toint_floor(d.t)), FALSE, "i")
        dims.append(zint(d))
        org.append(a)
    nx, ny = dims
    rec = Fit()
    rec.model, rec.x0, rec.y0, rec.nx, rec.ny, rec.mode, rec.factor = model, org[0], org[1], nx, ny, mode, factor
    RENDERS.append(rec)
    if isinstance(mode, str) and mode == "center":
        X = SArr((ny, nx), "f", lambda j, i: core.to_float(org[0]) + SNum(z3.ToReal(T(i)), FALSE, "f"))
        Y = SArr((ny, nx), "f", lambda j, i: core.to_float(org[1]) + SNum(z3.ToReal(T(j)), FALSE, "f"))
        rec.out = model(X, Y)
        return rec.out
    f = core.UF("render_%s_%d" % (mode, id(model)), *([core.RS] * 3 + [core.IS] * 2 + [core.RS]))
    x0, y0, fc = (core.toreal(num(v).t) for v in (org[0], org[1], factor))
    rec.out = SArr((ny, nx), "f", lambda j, i: SNum(f(x0, y0, fc, T(j), T(i)), FALSE, "f"))
    return rec.out


def install(m):
    n = m["numpy"]
    n.isnan = masked(n.isnan, "isnan")
    n.isfinite = masked(n.isfinite, "isfinite")
    inv = n.invert
    n.invert = n.logical_not = lambda a: ~a if isinstance(a, MArr) else inv(a)
    n.where, n.nonzero = where_m(n.where), where_m(n.nonzero)
    n.ma.getdata, n.ma.filled, n.ma.getmaskarray = getdata, filled, getmaskarray
    n.ma.MaskedArray = MArr
    n.ma.is_masked = None
    del n.ma.is_masked
    f = m["astropy.modeling.fitting"]
    for k in ("TRFLSQFitter", "LevMarLSQFitter", "LMLSQFitter", "DogBoxLSQFitter"):
        setattr(f, k, fitter(k, ITER))
    f.LinearLSQFitter = fitter("LinearLSQFitter", ["rcond"])
    m["astropy.stats"].sigma_clip = sigma_clip
    m["astropy.stats"].gaussian_sigma_to_fwhm = SNum(z3.Real("gaussian_sigma_to_fwhm"), FALSE, "f")
    m["astropy.nddata"].CCDData, m["astropy.nddata"].Cutout2D = CCDData, Cutout2D
    m["astropy.convolution.utils"].discretize_model = discretize_model
    return m
