"""Catalogue helpers."""
from ..contract import *
from .. import fits, phot, units
from .common import *

S = "petrofit.segmentation"
SIZES = [{"ny": 2, "nx": 2}]


def setup(h):
    phot.CALLS.clear()
    phot.SourceCatalog.made.clear()
    return h.load().module(S)


def is_same(h, name, got, want):
    """the very value that was passed"""
    if got is want:
        return h.ok(name)
    if isinstance(got, (SNum, int, float)) and isinstance(want, (SNum, int, float)) and not isinstance(got, bool):
        return h.ensure_eq(name, got, want)
    if isinstance(got, SArr) and isinstance(want, SArr):
        return h.ensure_array(name, got, want._shape, lambda *i: want.get(*i))
    h.fail(name, "another value")


def one(name):
    c = [x for x in phot.CALLS if x[0] == name]
    if len(c) > 1:
        raise Unsupported("%d calls of %s" % (len(c), name))
    return c[0] if c else None


def arg(h, call, nm, default, want, label=None):
    got = call[1].get(nm, default)
    is_same(h, label or "%s.%s" % (call[0], nm), got, want)


def options(h, thr, shape):
    t = h.array("threshold", shape) if thr == "array" else h.real("thr")
    return t, h.int("npix"), h.int("nlev"), h.real("con")


def racase(h, ev, **k):
    import numpy as np
    yy, xx = np.mgrid[:30, :32]
    im, seg = np.zeros((30, 32)), np.zeros((30, 32), int)
    for j, (y, x, amp) in enumerate([(7, 7, 6.0), (20, 9, 8.0), (15, 22, 7.0)]):
        d = np.hypot(yy - y, xx - x)
        im += amp * np.exp(-d ** 2 / 2.2)
        seg[d < 2.6] = j + 1
    nd = lambda a, t: {"__nd__": a.tolist(), "dtype": t, "shape": list(a.shape)}
    d = dict(im=nd(im, "float64"), seg=nd(seg, "int64"), deblend=True, npix=4, thr=0.8, nlev=16, con=0.4, key="area", rev=True, ccd=False, plot=False, blend=True, tharr=False)
    d.update(k)
    return ev.d(**d)


def image(h, box):
    ny, nx = h.dim("ny", 1), h.dim("nx", 1)
    a = h.array("image", (ny, nx), "f", nan=True)
    return {"ccd": fits.CCDData, "cutout": phot.Cutout2D}.get(box, lambda x: x)(a), a, (ny, nx)


@unit("C11.catalogue", sizes=SIZES, variants={"box": ["array", "ccd", "cutout"], "deblend": ["default", True, False], "plot": ["default", True, False], "thr": ["number", "array"], "defaults": [False, True]})
def catalogue(h, box, deblend, plot, thr, defaults):
    """detection, deblending and catalogue are given the caller's parameters and each other's results"""
    f = setup(h).make_catalog
    img, a, shape = image(h, box)
    t, npix, nlev, con = options(h, thr, shape)
    kw = {"npixels": npix}
    if not defaults:
        kw.update(nlevels=nlev, contrast=con, wcs=units.FakeWCS(None, None))
    if deblend != "default":
        kw["deblend"] = deblend
    if plot != "default":
        kw["plot"] = plot
    deb = deblend is not False
    h.case = lambda ev: racase(h, ev, deblend=deb, ccd=box == "ccd", tharr=thr == "array", plot=plot is True, nlev=30 if defaults else 16, con=0.001 if defaults else .4)
    r = h.result(f, img, t, **kw)
    if not (isinstance(r, tuple) and len(r) == 3):
        return h.fail("three-results", "not three results")
    cat, seg, segd = r
    det, dbl = one("detect_sources"), one("deblend_sources")
    if det is None:
        return h.fail("detection", "no detection")
    arg(h, det, "data", None, a)
    arg(h, det, "threshold", None, t)
    arg(h, det, "npixels", None, npix)
    h.goal("detect_sources.options", not set(det[1]) - {"data", "threshold", "npixels"})
    h.goal("segmentation", seg is det[2])
    if deb:
        if dbl is None:
            return h.fail("deblending", "no deblending")
        arg(h, dbl, "data", None, a)
        h.goal("deblend_sources.segment_img", dbl[1].get("segment_img") is det[2])
        arg(h, dbl, "npixels", None, npix)
        arg(h, dbl, "nlevels", 32, num(30) if defaults else nlev)
        arg(h, dbl, "contrast", 0.001, num(0.001) if defaults else con)
        h.goal("deblend_sources.options", not set(dbl[1]) - {"data", "segment_img", "npixels", "nlevels", "contrast", "progress_bar", "nproc"})
        h.goal("deblended", segd is dbl[2])
    else:
        h.goal("no-deblending", dbl is None and segd is None)
    h.goal("catalogue", cat in phot.SourceCatalog.made)
    is_same(h, "catalogue.image", cat.args[0], a)
    h.goal("catalogue.segmentation", cat.args[1] is (dbl[2] if deb else det[2]))
    w = cat.args[2].get("wcs")
    h.goal("catalogue.wcs", w is kw.get("wcs"))
    h.goal("catalogue.options", not set(cat.args[2]) - {"wcs"})
    h.unchanged(a)
    if thr == "array":
        h.unchanged(t)


@unit("C11.segments", sizes=SIZES, variants={"thr": ["number", "array", "default"]})
def segments(h, thr):
    f = setup(h).make_segments
    img, a, shape = image(h, "array")
    t, npix, nlev, con = options(h, thr, shape)
    h.case = lambda ev: racase(h, ev, deblend=False, tharr=thr == "array")
    r = h.result(f, img, npixels=npix, **({} if thr == "default" else {"threshold": t}))
    c = one("detect_sources")
    h.goal("result", c is not None and r is c[2])
    arg(h, c, "data", None, a)
    arg(h, c, "threshold", None, num(3.0) if thr == "default" else t)
    arg(h, c, "npixels", None, npix)
    h.goal("options", not set(c[1]) - {"data", "threshold", "npixels"})
    h.unchanged(a)


@unit("C11.deblend", sizes=SIZES, variants={"defaults": [False, True]})
def deblend(h, defaults):
    f = setup(h).deblend_segments
    img, a, shape = image(h, "array")
    t, npix, nlev, con = options(h, "number", shape)
    d = h.array("segm", shape, "i")
    seg = phot.SegmentationImage(d)
    h.case = lambda ev: racase(h, ev, nlev=30 if defaults else 16, con=0.001 if defaults else .4)
    r = h.result(f, img, seg, npixels=npix, **({} if defaults else {"nlevels": nlev, "contrast": con}))
    c = one("deblend_sources")
    h.goal("result", c is not None and r is c[2])
    arg(h, c, "data", None, a)
    h.goal("segment_img", c[1].get("segment_img") is seg)
    arg(h, c, "npixels", None, npix)
    arg(h, c, "nlevels", 32, num(30) if defaults else nlev)
    arg(h, c, "contrast", 0.001, num(0.001) if defaults else con)
    h.goal("options", not set(c[1]) - {"data", "segment_img", "npixels", "nlevels", "contrast", "progress_bar", "nproc"})
    h.unchanged(a)
    h.unchanged(d)


class Table:
    """a catalogue table: columns by name"""

    def __init__(self, cols):
        self.cols = cols

    def __getitem__(self, k):
        return self.cols[k]

    @property
    def colnames(self):
        return list(self.cols)


class Column:
    """a table column of numbers (a masked array without masked values)"""

    def __init__(self, a):
        self.a = a

    def argsort(self, *x, **k):
        shim.use("astropy.table", "a column's argsort() is an array of indices, a permutation that puts the column in increasing order")
        if x or k:
            raise Unsupported("argsort options")
        return arr.argsort_(self.a)

    @property
    def value(self):
        return self.a

    def _sym_array(self):
        return self.a

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("Column.%s" % n)


@unit("C11.order", sizes=[{"n": 2}, {"n": 3}], variants={"key": ["default", "kron_flux"], "reverse": ["default", True, False]})
def order(h, key, reverse):
    """a permutation of the rows that sorts the key column, decreasing unless told otherwise"""
    f = setup(h).order_cat
    n = h.dim("n", 1)
    col, other = h.array("col", (n,)), h.array("other", (n,))
    nm = "area" if key == "default" else key
    t = Table({"label": Column(other), "area": Column(other), "kron_flux": Column(other), nm: Column(col)})
    cat = phot.SourceCatalog()
    cat.to_table = lambda: t
    kw = {} if key == "default" else {"key": key}
    if reverse != "default":
        kw["reverse"] = reverse
    dec = reverse is not False
    h.case = lambda ev: racase(h, ev, key=nm, rev=dec)
    out = h.result(f, cat, **kw)
    o = asarr(out)
    h.goal("length", And(z3.BoolVal(o.ndim == 1), T(o._shape[0]) == T(n)))
    at = lambda i: num(o.get(i)).t
    if isinstance(n, int):
        for i in range(n):
            h.goal("row-numbers", And(at(i) >= 0, at(i) < n))
            for j in range(i):
                h.goal("permutation", at(i) != at(j))
        for i in range(1, n):
            a, b = num(col.get(at(i - 1))).t, num(col.get(at(i))).t
            h.goal("sorted", a >= b if dec else a <= b)
    else:
        ((i,), (j,)) = h.index((n,))[0], h.index((n,))[0]
        h.goal("row-numbers", And(at(i) >= 0, at(i) < T(n)))
        h.goal("permutation", Implies(i != j, at(i) != at(j)))
        a, b = num(col.get(at(i))).t, num(col.get(at(j))).t
        h.goal("sorted", Implies(i < j, a >= b if dec else a <= b))
    h.unchanged(col)


NAMES = {"position": ["maxval_xindex", "maxval_yindex"], "elong": ["elongation"], "ellip": ["ellipticity"], "theta": ["orientation"]}


@unit("C11.geometry", variants={"what": list(NAMES), "how": ["entry", "row", "plainrow"]})
def geometry(h, what, how):
    """the same numbers from an entry and from a table row; the angle in radians"""
    f = getattr(setup(h), "get_source_" + what)
    deg = h.loader.mods["astropy.units"].deg
    one_ = h.loader.mods["astropy.units"].dimensionless_unscaled
    vals = {n: (h.int(n, np=True) if n.startswith("maxval") else h.real(n, np=True)) for ns in NAMES.values() for n in ns}
    unit_ = {"elongation": one_, "ellipticity": one_, "orientation": deg}
    shim.use("photutils.segmentation.SourceCatalog", "an entry has whole-number maxval_xindex and maxval_yindex, dimensionless elongation and ellipticity and an orientation in degrees; the table row holds the same values under the same names")
    item = {n: (units.Quantity(v, unit_[n]) if n in unit_ and how != "plainrow" else v) for n, v in vals.items()}
    h.case = lambda ev: racase(h, ev)
    if how == "entry":
        src = phot.SourceCatalog()
        src.__dict__.update(item)
    else:
        src = item
    out = h.result(f, src)
    want = [vals[n] for n in NAMES[what]]
    if what == "theta":
        h.assume(And(z3.Real("pi") > 3, z3.Real("pi") < 4))
        want = [want[0] * SNum(z3.Real("pi"), FALSE, "f") / num(180)]
    if what == "position":
        if not (isinstance(out, (tuple, list)) and len(out) == 2):
            return h.fail("pair", "not a pair")
    else:
        out = [out]
    for g, w in zip(out, want):
        if isinstance(g, units.Quantity):
            rad = h.loader.mods["astropy.units"].rad
            if bool(g.unit.dims) != (what == "theta"):
                return h.fail("value", "unit")
            if what == "theta":
                h.goal("radians", core.toreal(g.unit.scale.t) == core.toreal(rad.scale.t))
            g = g.value
        if isinstance(g, SArr):
            return h.fail("value", "array")
        h.ensure_eq("value", g, w)
