"""Contracts of photutils and of image cutouts, over symbolic values."""
import z3
from . import core, arr, shim, units
from .core import SNum, SBool, Unsupported, And, Or, Not, Implies, TRUE, FALSE, num, as_bool, zint, T, simp
from .arr import SArr, SSel, asarr
from .shim import use


class Opaque:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("%s.%s" % (type(self).__name__, name))


class SegmentationImage(Opaque):
    """label image"""

    def __init__(self, data):
        self.data = data

    @property
    def shape(self):
        return self.data.shape

    def make_cmap(self, *a, **k):
        return shim.Plot()

    def copy(self):
        return SegmentationImage(self.data.copy())


class SourceCatalog(Opaque):
    """records what it is built from; an entry has the attributes it was given"""
    made = []

    def __init__(self, data=None, segment_img=None, **k):
        self.args = (data, segment_img, k)
        if data is not None:
            SourceCatalog.made.append(self)


class NoSource:
    pass


CALLS = []


def recorder(name, result, sig):
    def f(*a, **k):
        use("photutils.segmentation." + name, "the result depends on the arguments only; no argument is changed")
        d = dict(zip(sig, a))
        if len(a) > len(sig) or set(k) & set(d):
            raise TypeError("%s() arguments" % name)
        d.update(k)
        r = result(d)
        CALLS.append((name, d, r))
        return r
    return f


DET = ["data", "threshold", "npixels", "connectivity", "mask"]
DEB = ["data", "segment_img", "npixels", "labels", "nlevels", "contrast", "mode", "connectivity", "relabel", "nproc", "progress_bar"]


def new_seg(tag):
    def r(d):
        a = asarr(d["data"])
        f = core.UF("%s%d" % (tag, len(CALLS)), *([core.IS] * a.ndim + [core.IS]))
        return SegmentationImage(SArr(a._shape, "i", lambda *i: SNum(f(*[T(x) for x in i]), FALSE, "i", True)))
    return r


# ---------------------------------------------------------------- apertures

APERTURE = "do_photometry returns the sum over the pixels that are not masked of weight times value, and the root of the sum of weight times squared error (nothing without an error map); the weights depend on the image shape, centre, semi-axes, angle and method only; masked pixels do not matter; arguments are not changed; semi-axes that are not positive are rejected"


def xy(p):
    if isinstance(p, (tuple, list)):
        if len(p) != 2:
            raise ValueError("'positions' must be a (x, y) pixel position")
        return num(p[0]), num(p[1])
    p = asarr(p)
    if p.ndim != 1 or arr.deq(p._shape[0], 2) is not True:
        raise Unsupported("several positions")
    return num(p.get(0)), num(p.get(1))


def angle_of(theta):
    if isinstance(theta, units.Quantity):
        u = core.ctx()
        return theta.to(RAD[0]).value
    return num(theta)


RAD = [None]


def apsum(kind, image, mask, pos, a, b, theta, method, square=False):
    """weighted sum of the unmasked pixels"""
    im = asarr(image)

    def el(*i):
        e = core.to_float(im.get(*i))
        if mask is None:
            return e
        return arr.ite_el(simp(as_bool(mask.get(*i)).t), num(0.0), e)
    eff = SArr(im._shape, "f", el)
    return arr.lib_scalar("ap_%s_%s" % (kind, method), [eff], core.to_float(pos[0]), core.to_float(pos[1]), core.to_float(num(a)), core.to_float(num(b)), core.to_float(num(theta)))


class EllipticalAnnulus(Opaque):
    def __init__(self, positions, a_in, a_out, b_out, b_in=None, theta=0.0):
        use("photutils.aperture.EllipticalAnnulus", "semi-axes that are not positive, or an outer axis not above the inner one, are rejected; without an inner semi-minor axis the inner ellipse has the elongation of the outer one")
        self.pos, self.a_in, self.a_out, self.b_out, self.theta = xy(positions), num(a_in), num(a_out), num(b_out), angle_of(theta)
        self.b_in = self.b_out * self.a_in / self.a_out if b_in is None else num(b_in)
        if not bool(self.a_out > self.a_in):
            raise ValueError("'a_out' must be greater than 'a_in'")
        if b_in is not None and not bool(self.b_out > self.b_in):
            raise ValueError("'b_out' must be greater than 'b_in'")
        for v in (self.a_in, self.a_out, self.b_out, self.b_in):
            if not bool(v > 0):
                raise ValueError("must be a positive scalar")


class EllipticalAperture(Opaque):
    def __init__(self, positions, a, b, theta=0.0):
        use("photutils.aperture.EllipticalAperture", APERTURE)
        self.pos, self.a, self.b, self.theta = xy(positions), num(a), num(b), angle_of(theta)
        for v in (self.a, self.b):
            if not bool(v > 0):
                raise ValueError("must be a positive scalar")

    def plot(self, *a, **k):
        shim.drew(("aperture", "plot"), (self,) + a, k)
        return shim.Plot()

    def do_photometry(self, data, error=None, mask=None, method="exact", subpixels=5):
        if not isinstance(method, str) or method not in ("exact", "center", "subpixel"):
            raise ValueError("Invalid mask mode")
        if method == "subpixel":
            method = "subpixel%s" % (subpixels,)
        if isinstance(data, (list, tuple)):
            data = asarr(data)
        if not isinstance(data, SArr) or data.ndim != 2:
            raise Unsupported("photometry of %s" % type(data).__name__)
        for o in (error, mask):
            if o is not None:
                if not isinstance(o, SArr):
                    raise Unsupported("error or mask of type %s" % type(o).__name__)
                if any(arr.deq(x, y) is not True for x, y in zip(o._shape, data._shape)) or o.ndim != 2:
                    raise Unsupported("error or mask of another shape")
        if mask is not None and mask._k != "b":
            raise Unsupported("mask that is not boolean")
        s = apsum("sum", data, mask, self.pos, self.a, self.b, self.theta, method)
        out = SArr((1,), "f", lambda i: s)
        if error is None:
            return out, SArr((0,), "f", lambda i: num(0.0))
        e = apsum("err", error, mask, self.pos, self.a, self.b, self.theta, method)
        return out, SArr((1,), "f", lambda i: e)


# ------------------------------------------------------------------ cutouts

CUT = "Cutout2D(data, (x, y), size, mode='partial', fill_value=v).data has size x size pixels; for a whole-number size and position pixel (j, i) is data[y - size//2 + j, x - size//2 + i] where that exists and v elsewhere; it is a view of data exactly when it lies wholly inside"


class Cutout2D:
    def __init__(self, data, position=None, size=None, wcs=None, mode="trim", fill_value=float("nan"), copy=False, **k):
        if position is None:
            self.data = data            # a container built by a harness
            self.shape = data.shape
            return
        use("astropy.nddata.Cutout2D", CUT)
        if wcs is not None or mode != "partial" or k:
            raise Unsupported("cutout options")
        data = asarr(data)
        if data.ndim != 2:
            raise Unsupported("cutout of rank %d" % data.ndim)
        if isinstance(size, (tuple, list)):
            if len(size) != 2:
                raise ValueError("size must have at most two elements")
            sy, sx = size
        else:
            sy = sx = size
        sy, sx = num(sy), num(sx)
        x, y = xy(position)
        for v in (sx, sy, x, y):
            if v.k != "i":
                raise Unsupported("cutout with a fractional size or position")
        half = []
        for v in (sx, sy):
            if not bool(v > 0):
                raise ValueError("size")
            half.append(core.n_floordiv(v, num(2)))
        x0, y0 = simp((x - half[0]).t), simp((y - half[1]).t)
        ny, nx = data._shape
        nyt, nxt = T(ny), T(nx)
        if bool(SBool(Or(x0 >= nxt, y0 >= nyt, x0 + sx.t <= 0, y0 + sy.t <= 0))):
            raise ValueError("NoOverlapError")
        shape = (zint(simp(sy.t)), zint(simp(sx.t)))
        inside = simp(And(x0 >= 0, y0 >= 0, x0 + sx.t <= nxt, y0 + sy.t <= nyt))
        if not copy and core.ctx().decide(inside) is not False and bool(SBool(inside)):
            I = lambda t: SNum(t, FALSE, "i")
            self.data = data[I(y0):I(simp(y0 + sy.t)), I(x0):I(simp(x0 + sx.t))]
            self.data._shape = shape
        else:
            g = data.snap()
            if data._k == "i":
                fill = num(fill_value)
                if core.is_true(fill.nan):
                    raise ValueError("fill_value is inconsistent with the data type of the input array")
            fill = num(fill_value)

            def el(j, i):
                a, b = simp(y0 + T(j)), simp(x0 + T(i))
                ok = simp(And(a >= 0, a < nyt, b >= 0, b < nxt))
                if core.is_true(ok):
                    return g(a, b)
                if core.is_false(ok):
                    return fill
                return arr.ite_el(ok, g(a, b), fill)
            self.data = SArr(shape, data._k, el)
        self.shape = self.data.shape

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Cutout2D.%s" % name)


def sigma_clipped_stats(data, mask=None, mask_value=None, sigma=3.0, **k):
    use("astropy.stats.sigma_clipped_stats", "mean, median and deviation are numbers that depend on the unmasked values and sigma only")
    if k or mask_value is not None:
        raise Unsupported("sigma_clipped_stats options")
    a = asarr(data)
    if mask is not None:
        m = asarr(mask)
        g, q = a.snap(), m.snap()
        a = SArr(a._shape, "f", lambda *i: arr.ite_el(simp(as_bool(q(*i)).t), shim_nan(), core.to_float(g(*i))))
    # a value that is not a number is masked as well
    return tuple(arr.lib_scalar("scs_" + n, [a], num(sigma), nan=FALSE) for n in ("mean", "median", "std"))


def shim_nan():
    return core.NAN()


def install(m):
    s = m["photutils.segmentation"]
    s.SegmentationImage, s.SourceCatalog = SegmentationImage, SourceCatalog
    s.detect_sources = recorder("detect_sources", new_seg("detected"), DET)
    s.deblend_sources = recorder("deblend_sources", new_seg("deblended"), DEB)
    m["photutils.aperture"].EllipticalAperture = EllipticalAperture
    m["photutils.aperture"].EllipticalAnnulus = EllipticalAnnulus
    m["astropy.nddata"].Cutout2D = Cutout2D
    m["astropy.stats"].sigma_clipped_stats = sigma_clipped_stats
    u = m["astropy.units"]
    RAD[0] = u.rad
    units.NAMES.update(rad=u.rad, deg=u.deg, arcsec=u.arcsec, arcmin=u.arcmin)
    return m
