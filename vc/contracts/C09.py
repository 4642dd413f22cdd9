"""source_photometry: the cutout, the mask, the background plane and what is measured."""
from ..contract import *
from .. import fits, phot, units, astro
from .common import *
from .C10 import entry

S = "petrofit.segmentation"
FM = "petrofit.modeling.fitting"
SIZES = [{"ny": 2, "nx": 3, "n": 2, "half": 1}, {"ny": 3, "nx": 3, "n": 1, "half": 2}]


def source(h, ny, nx):
    u = h.loader.mods["astropy.units"]
    s = entry(h.int("label", np=True))
    x, y = h.int("peak_x", np=True), h.int("peak_y", np=True)
    h.assume(And(s.label.t > 0, x.t >= 0, x.t < T(nx), y.t >= 0, y.t < T(ny)))
    h.assume(And(z3.Real("pi") > 3, z3.Real("pi") < 4))
    s.maxval_xindex, s.maxval_yindex = x, y
    el, deg = h.real("elongation", np=True), h.real("orientation", np=True)
    h.assume(el.t >= 1)
    s.elongation = units.Quantity(el, u.dimensionless_unscaled)
    s.orientation = units.Quantity(deg, u.deg)
    return s, x, y, el, deg * SNum(z3.Real("pi"), FALSE, "f") / num(180)


def measured(h):
    """contract of radial_photometry (proved in C08): records what it is given, returns three arrays"""
    h.measured = []

    def f(**k):
        n = asarr(k["r_list"])._shape[0]
        out = tuple(SArr((n,), "f", lambda i, t=t: SNum(core.UF(t, IS, RS)(T(i)), FALSE, "f")) for t in ("flux_out", "area_out", "err_out"))
        # what it is given now: later writes do not matter
        snap = lambda a: SArr(a._shape, a._k, a.snap()) if isinstance(a, SArr) else a
        h.measured.append(({q: (snap(v) if q in ("image", "error", "mask") else v) for q, v in k.items()}, out))
        return out
    return stub(f)


def background(h):
    """contract of fit_background (proved in C20): a copy of the model with parameters fitted to the valid pixels"""
    h.fits = []

    def f(**k):
        im = k["image"]
        if k.get("sigma") is not None:
            im = fits.sigma_clip(im, k["sigma"])
        data, bad = (im.data_, im.mask_) if isinstance(im, fits.MArr) else (asarr(im), None)
        g = data.snap()
        b = bad.snap() if bad is not None else None
        valid = lambda j, i: And(Not(num(g(j, i)).nan), TRUE if b is None else Not(as_bool(b(j, i)).t))
        m = k["model"].copy()
        for p in m.param_names:
            setattr(m, p, h.real("fitted_" + p))
        h.fits.append((data._shape, lambda j, i: num(g(j, i)), valid, k, m))
        return m, object()
    return stub(f)


def setup(h):
    mods = h.load({S + ".radial_photometry": measured(h), S + ".fit_background": background(h)})
    return mods.module(S).source_photometry


class Cut:
    def __init__(self, x, y, size, ny, nx):
        self.x0, self.y0 = simp(x.t - size / 2), simp(y.t - size / 2)
        self.ny, self.nx = T(ny), T(nx)

    def inside(self, j, i):
        a, b = simp(self.y0 + T(j)), simp(self.x0 + T(i))
        return simp(And(a >= 0, a < self.ny, b >= 0, b < self.nx))

    def of(self, g):
        """g inside the image, NaN outside"""
        return lambda j, i: arr.ite_el(self.inside(j, i), core.to_float(g(simp(self.y0 + T(j)), simp(self.x0 + T(i)))), NAN())


def cutsize(h, form, rs, n):
    """(argument, even size): the requested whole number of pixels is 2k or 2k-1, the cutout has 2k"""
    kind, odd = form[:-1], int(form[-1])
    hc = h.dim("half", 1)
    k = simp(2 * T(hc) - odd)
    size = simp(2 * T(hc))
    if kind == "default":
        # three times the largest radius, rounded up
        m = arr.minmax(rs, False)
        t = simp(-3 * toreal(m.t))
        h.assume(And(z3.ToReal(k) >= 3 * toreal(m.t), z3.ToReal(k) < 3 * toreal(m.t) + 1))
        h.c.alias.append((t, simp(-k)))
        return None, size
    if kind == "float":
        x = h.real("cutout_real")
        h.assume(And(x.t >= z3.ToReal(k), x.t < z3.ToReal(k) + 1))
        h.c.alias.append((simp(x.t), k))
        return x, size
    return SNum(k, FALSE, "i", kind == "npint"), size


def racase(h, ev, im, d, er, rs, form, cs, bg, stype, sigma, mbg, plot, method):
    I, sg = ev.nd(im), ev.nd(d)
    lab = ev.num(h.int("label"))
    return None


FORMS = ["default0", "default1", "int0", "int1", "npint1", "float0", "float1"]


@unit("C09.measure", sizes=SIZES, variants={"cut": FORMS, "err": [False, True], "mbg": ["default", True], "box": ["array", "ccd"], "plot": [False, True], "method": ["default", "center"], "bg": ["none", "clip", "Clip", "default", "bound"]},
      skip=lambda cut, err, mbg, box, plot, method, bg: plot and (box != "array" or cut != "int0" or mbg is True or err) or method == "center" and (cut != "int0" or box == "ccd" or plot or bg != "none") or cut[:-1] in ("npint", "float", "default") and (box == "ccd" or mbg is True or bg not in ("none", "clip"))
      or bg in ("Clip", "default") and (cut != "int0" or err or mbg is True or box == "ccd") or cut == "int1" and (box == "ccd" or mbg is True))
def measure(h, cut, err, mbg, box, plot, method, bg):
    """radial photometry around the peak pixel on an even cutout with every other source masked, minus the fitted plane"""
    f = setup(h)
    ny, nx, n = h.dim("ny", 1), h.dim("nx", 1), h.dim("n", 1)
    d = h.array("segm", (ny, nx), "i")
    im = h.array("image", (ny, nx), "f", nan=True)
    er = h.array("error", (ny, nx), "f", nan=True) if err else None
    src, x, y, el, theta = source(h, ny, nx)
    rs = h.array("radii", (n,), "f")
    h.forall([n], lambda i: rs.get(i).t > 0)
    arg, size = cutsize(h, cut, rs, n)
    sigma = h.real("sigma")
    h.assume(sigma.t > 0)
    seg = phot.SegmentationImage(d)
    img = fits.CCDData(im) if box == "ccd" else im
    kw = {}
    if arg is not None:
        kw["cutout_size"] = arg
    if err:
        kw["error"] = er
    if mbg is True:
        kw["mask_background"] = True
    if plot:
        kw["plot"] = True
    if method != "default":
        kw["method"] = method
    if bg != "none":
        kw.update(bg_sub=True)
        if bg == "default":
            sigma = num(3.0)
        else:
            kw.update(sigma=sigma, sigma_type=bg)
    o = h.result(f, src, img, seg, rs, **kw)
    if len(h.measured) != 1:
        raise Unsupported("%d photometry calls" % len(h.measured))
    given, out = h.measured[0]
    h.goal("result", isinstance(o, (tuple, list)) and len(o) == 3 and all(a is b for a, b in zip(o, out)))
    S_ = size
    Sz = zint(S_)
    C_ = Cut(x, y, S_, ny, nx)
    lab = src.label.t
    own = lambda a, b: simp(num(d.get(a, b)).t == lab) if mbg is True else simp(Or(num(d.get(a, b)).t == lab, num(d.get(a, b)).t == 0))
    masked = C_.of(lambda a, b: arr.ite_el(own(a, b), num(im.get(a, b)), NAN()))
    free = C_.of(lambda a, b: arr.ite_el(simp(num(d.get(a, b)).t == 0), num(im.get(a, b)), NAN()))
    # the geometry handed on
    p = given["position"]
    try:
        px, py = phot.xy(p)
    except Exception:
        return h.fail("position", "not a position")
    half = SNum(z3.ToReal(S_) / 2, FALSE, "f")
    h.ensure_eq("position", px, half)
    h.ensure_eq("position", py, half)
    h.ensure_eq("elongation", given["elong"], el)
    h.ensure_eq("orientation", given["theta"], theta)
    h.goal("method", given["method"] == ("exact" if method == "default" else method))
    r = given["r_list"]
    h.goal("radii", r is rs)
    g = given["image"]
    if not isinstance(g, SArr) or g.ndim != 2:
        return h.fail("cutout", "not an image")
    h.goal("cutout.even", And(S_ % 2 == 0, T(g._shape[0]) == S_, T(g._shape[1]) == S_))
    plane = None
    if bg == "none":
        h.goal("no-fit", not h.fits)
    elif h.fits:
        if len(h.fits) != 1:
            raise Unsupported("%d fits" % len(h.fits))
        fs, val, valid, fk, fm = h.fits[0]
        h.goal("background.model", type(fk["model"]).__name__ == "Planar2D")
        h.goal("background.shape", And(z3.BoolVal(len(fs) == 2), *[T(q) == S_ for q in fs]))
        F = SArr((Sz, Sz), "f", lambda j, i: free(j, i))
        if bg == "bound":
            mean = phot.sigma_clipped_stats(F, sigma=num(3), mask=shim.np_isnan(F))[0]
            keep = lambda j, i: And(Not(free(j, i).nan), free(j, i).t <= mean.t + sigma.t, free(j, i).t >= mean.t - sigma.t)
        else:
            mk = fits.sigma_clip(F, sigma).mask_
            keep = lambda j, i: Not(as_bool(mk.get(j, i)).t)
        for ji in h.index((Sz, Sz)):
            h.goal("background.pixels", valid(*ji) == keep(*ji))
            h.goal("background.values", Implies(keep(*ji), eqn(val(*ji), free(*ji))))
        sx, sy, c = (num(getattr(fm, q).value) for q in ("slope_x", "slope_y", "intercept"))
        R = lambda k: SNum(z3.ToReal(T(k)), FALSE, "f")
        plane = lambda j, i: sx * R(i) + sy * R(j) + c
    else:
        # too few source-free pixels to fit
        cnt = arr.Sel(SArr((Sz, Sz), "b", lambda j, i: SBool(Not(free(j, i).nan)))).count()
        h.goal("background.subtracted", cnt <= 10)
    m = given["mask"]
    if not isinstance(m, SArr):
        return h.fail("mask", "no mask")
    h.goal("mask.boolean", m._k == "b")
    for ji in h.index((Sz, Sz)):
        w = masked(*ji)
        if plane is not None:
            w = w - plane(*ji)
        q = num(g.get(*ji))
        ok = eqn(q, w)
        if bg == "bound" and plane is not None:
            low = arr.ite_el(simp(w.t < -sigma.t), SNum(-sigma.t, w.nan, "f"), w)
            ok = Or(ok, eqn(q, low))
        h.goal("pixels-outside-the-mask", masked(*ji).nan == Not(as_bool(m.get(*ji)).t))
        h.goal("pixels", Implies(as_bool(m.get(*ji)).t, ok))
    e = given["error"]
    if not err:
        h.goal("error", e is None)
    else:
        if not isinstance(e, SArr):
            return h.fail("error", "no error map")
        we = C_.of(lambda a, b: num(er.get(a, b)))
        h.ensure_array("error", e, (Sz, Sz), we)
    for a in (im, d, er, rs):
        if a is not None:
            h.unchanged(a)
    if box == "ccd":
        h.goal("frame.container", img.data is im)
    h.goal("frame.segmentation", seg.data is d)
