"""plot_fit and measure_fwhm."""
from ..contract import *
from .. import astro, fits, arr
from .images import submodel, fval, NP
from .C21 import center, origin
from .common import *
from .C36 import args_of

F = "petrofit.modeling.fitting"
SIZES = [{"nx": 2, "ny": 3}, {"nx": 3, "ny": 2}]


def racase(ev, h, **k):
    d = dict(shape={"__t__": [8 + h.sizes["ny"], 8 + h.sizes["nx"]]}, center=None, how="plot", wrap="array", seed=3, sx=1.7, sy=2.4, amp=9.0, noise=0.01, lims=False, mode="center", cbar=True)
    d.update(k)
    return ev.d(**d)


@unit("C29.plot", sizes=SIZES, variants={"box": ["array", "ccd", "cutout", "int"], "cform": ["none", "tuple", "list", "fpair"], "mode": ["default", "center", "oversample"], "lims": [False, True], "cbar": [True, False]},
      skip=lambda box, cform, mode, lims, cbar: lims and (cform != "tuple" or mode == "center"))
def plot(h, box, cform, mode, lims, cbar):
    """model image and residual for any rectangular image, container, centre and mode"""
    f = h.load().module(F).plot_fit
    nx, ny = h.dim("nx", 1), h.dim("ny", 1)
    a = h.array("image", (ny, nx), "i" if box == "int" else "f", nan=box != "int")
    img = {"ccd": fits.CCDData, "cutout": fits.Cutout2D}.get(box, lambda x: x)(a)
    c = center(h, cform)
    m = submodel(h)()
    ps = []
    for k in range(NP):
        ps.append(h.real("q%d" % k))
        setattr(m, "p%d" % k, ps[-1])
    kw = {"cbar": cbar}
    if c is not None:
        kw["center"] = c
    if mode != "default":
        kw["mode"] = mode
    if lims:
        kw.update(vmin=h.real("vmin"), vmax=h.real("vmax"))
    h.case = lambda ev: racase(ev, h, center=None if c is None else {"__t__": [int(ev.num(v)) for v in c]}, wrap=box if box in ("ccd", "cutout") else "array", lims=lims, cbar=cbar, mode="oversample" if mode == "oversample" else "center")
    fits.RENDERS.clear()
    r = h.result(f, m, img, **kw)
    if not (isinstance(r, tuple) and len(r) == 4):
        return h.fail("four-results", "not four results")
    _, bar, mi, ri = r
    x0, y0 = origin(c, nx, ny)
    h.goal("colour-bar", (bar is not None) == cbar)
    if mode == "oversample":
        if len(fits.RENDERS) != 1:
            raise Unsupported("%d renderings" % len(fits.RENDERS))
        q = fits.RENDERS[0]
        h.goal("mode", q.mode == mode and q.model is m)
        h.ensure_eq("factor", q.factor, num(1))
        h.ensure_eq("x-origin", q.x0, x0)
        h.ensure_eq("y-origin", q.y0, y0)
        want = lambda j, i: num(q.out.get(j, i))
    else:
        at = lambda o, k: core.to_float(o) + SNum(z3.ToReal(T(k)), FALSE, "f")
        want = lambda j, i: fval(at(x0, i), at(y0, j), ps)
    h.ensure_array("model-image", mi, (ny, nx), want)
    h.ensure_array("residual", ri, (ny, nx), lambda j, i: num(a.get(j, i)) - want(j, i))
    h.unchanged(a)
    for k in range(NP):
        h.ensure_eq("model.p%d" % k, getattr(m, "p%d" % k).value, ps[k])


@unit("C29.panels", sizes=SIZES, variants={"box": ["array", "ccd", "cutout"], "lims": ["none", "both", "vmin", "vmax"]})
def panels(h, box, lims):
    """three panels: image, model image, residual, with the given colour limits, or one common pair"""
    f = h.load().module(F).plot_fit
    nx, ny = h.dim("nx", 1), h.dim("ny", 1)
    a = h.array("image", (ny, nx), "f", nan=True)
    img = {"ccd": fits.CCDData, "cutout": fits.Cutout2D}.get(box, lambda x: x)(a)
    m = submodel(h)()
    ps = []
    for k in range(NP):
        ps.append(h.real("q%d" % k))
        setattr(m, "p%d" % k, ps[-1])
    given = {n: h.real(n) for n in ("vmin", "vmax") if lims in ("both", n)}
    h.case = lambda ev: racase(ev, h, wrap=box, lims={"both": True, "none": False}.get(lims, lims))
    h.c.draws = []
    r = h.result(f, m, img, **given)
    if not (isinstance(r, tuple) and len(r) == 4):
        return h.fail("four-results", "not four results")
    at = lambda k: SNum(z3.ToReal(T(k)), FALSE, "f")
    model = lambda j, i: fval(at(i), at(j), ps)
    want = [lambda j, i: num(a.get(j, i)), model, lambda j, i: num(a.get(j, i)) - model(j, i)]
    seen, titles, first = {}, {}, None
    for path, aa, kk in h.c.draws:
        if path[-1] == "imshow":
            if len(path) != 3 or path[0] != "ax" or path[1] in seen or "norm" in kk or kk.get("origin") not in (None, "upper") or kk.get("extent") is not None:
                raise Unsupported("panels drawn by %s" % (path,))
            seen[path[1]] = (args_of(aa, kk, "X")[0], kk)
        if len(path) == 3 and path[0] == "ax" and path[2] == "set_title" and aa:
            titles[path[1]] = aa[0]
        if path[-1] in ("set_clim", "clim", "suptitle", "set") or path[-1] == "set_title" and not aa:
            raise Unsupported("panels changed by %s" % path[-1])
    if set(seen) != {0, 1, 2}:
        raise Unsupported("panels %s" % sorted(seen))
    for k, nm in enumerate(("image", "model", "residual")):
        x, kk = seen[k]
        for _ in range(3):
            if isinstance(x, (fits.CCDData, fits.Cutout2D)):
                x = x.data
        if not isinstance(x, SArr):
            raise Unsupported("panel of type %s" % type(x).__name__)
        h.ensure_array("panel." + nm, x, (ny, nx), want[k])
        for v in ("vmin", "vmax"):
            if kk.get(v) is None:
                h.fail("panel.%s.%s" % (nm, v), "the limit is not passed")
            else:
                h.ensure_eq("panel.%s.%s" % (nm, v), kk[v], given[v] if v in given else seen[0][1][v])
        h.goal("panel.%s.title" % nm, titles.get(k) == ("Data", "Model", "Residual")[k])


@unit("C29.fwhm", sizes=SIZES, variants={"plot": [False, True], "printout": [False, True], "kind": ["f", "nan", "i"]})
def fwhm(h, plot, printout, kind):
    """the widths are the fitted standard deviations in x and y times 2 sqrt(2 ln 2)"""
    f = h.load().module(F).measure_fwhm
    nx, ny = h.dim("nx", 1), h.dim("ny", 1)
    a = h.array("image", (ny, nx), "i" if kind == "i" else "f", nan=kind == "nan")
    factor = num(2) * core.f_sqrt(num(2) * core.f_log(num(2)))
    h.assume(z3.Real("gaussian_sigma_to_fwhm") == factor.t)
    shim.use("astropy.stats.gaussian_sigma_to_fwhm", "2 sqrt(2 ln 2)")
    F_ = h.loader.mods["astropy.modeling.fitting"]
    made = []
    for nm in ("TRFLSQFitter", "LevMarLSQFitter", "LMLSQFitter", "DogBoxLSQFitter", "LinearLSQFitter"):
        cls = getattr(F_, nm)

        def rec(self, *aa, _init=fits.Fitter.__init__, **kk):
            _init(self, *aa, **kk)
            made.append(self)
        cls.__init__ = rec
    h.case = lambda ev: racase(ev, h, how="fwhm_plot" if plot else "fwhm", seed=3 if printout else 2, noise=0.0)
    out = h.result(f, a, plot=plot, printout=printout)
    calls = [c for x in made for c in x.calls]
    if len(calls) != 1:
        raise Unsupported("%d fits" % len(calls))
    g = calls[0].out
    h.goal("gaussian", type(g).__name__ == "Gaussian2D")
    fit = {n: z for n, z in calls[0].fitted.items()}
    want = [fit["x_stddev"] * factor, fit["y_stddev"] * factor]
    out = asarr(out)
    h.goal("pair", And(z3.BoolVal(out.ndim == 1), T(out._shape[0]) == 2))
    for k in range(2):
        h.ensure_eq("width." + "xy"[k], out.get(k), want[k])
    h.unchanged(a)


@unit("C29.marks", sizes=SIZES, variants={"kind": ["f", "i"]})
def marks(h, kind):
    """the width plot marks the fitted centre, the centre plus and minus half the widths, and half the maximum"""
    f = h.load().module(F).measure_fwhm
    nx, ny = h.dim("nx", 1), h.dim("ny", 1)
    a = h.array("image", (ny, nx), kind)
    factor = num(2) * core.f_sqrt(num(2) * core.f_log(num(2)))
    h.assume(z3.Real("gaussian_sigma_to_fwhm") == factor.t)
    F_ = h.loader.mods["astropy.modeling.fitting"]
    made = []
    for nm in ("TRFLSQFitter", "LevMarLSQFitter", "LMLSQFitter", "DogBoxLSQFitter", "LinearLSQFitter"):
        cls = getattr(F_, nm)

        def rec(self, *aa, _init=fits.Fitter.__init__, **kk):
            _init(self, *aa, **kk)
            made.append(self)
        cls.__init__ = rec
    h.case = lambda ev: racase(ev, h, how="fwhm_plot", seed=3, noise=0.0)
    h.c.draws = []
    h.result(f, a, plot=True, printout=False)
    calls = [c for x in made for c in x.calls]
    if len(calls) != 1:
        raise Unsupported("%d fits" % len(calls))
    g, fit = calls[0].out, calls[0].fitted
    c = [num(fit[n]) for n in ("x_mean", "y_mean")]
    half = [num(fit[n]) * factor / num(2) for n in ("x_stddev", "y_stddev")]
    top = num(scalar(g(c[0], c[1]))) / num(2)
    # axis of the figure: which marks it may carry
    allowed = {(0, "axvline"): [c[0], c[0] - half[0], c[0] + half[0]], (0, "axhline"): [c[1] - half[1], c[1] + half[1], top],
               (1, "axvline"): [c[1], c[1] - half[1], c[1] + half[1]], (1, "axhline"): [top]}
    low = {(0, "axvline"): (1, 2), (0, "axhline"): (0, 1), (1, "axvline"): (1, 2)}
    n = {k: [0] * len(v) for k, v in allowed.items()}
    for path, aa, kk in h.c.draws:
        if path[-1] in ("vlines", "hlines", "add_patch", "axvspan", "axhspan"):
            raise Unsupported("marks drawn by %s" % path[-1])
        if path[-1] not in ("axvline", "axhline"):
            continue
        if len(path) != 3 or path[0] != "ax" or path[1] not in (0, 1) or len(aa) != 1:
            raise Unsupported("marks drawn by %s" % (path,))
        key = path[1], path[2]
        v = num(scalar(aa[0]))
        hit = [i for i, w in enumerate(allowed[key]) if h.c.decide(And(Not(v.nan), toreal(v.t) == toreal(w.t))) is True or z3.simplify(toreal(v.t) - toreal(w.t)).eq(z3.RealVal(0))]
        if not hit:
            h.goal("%s-%d.placed" % (key[1], key[0]), Or(*[And(Not(v.nan), toreal(v.t) == toreal(w.t)) for w in allowed[key]]))
            raise Unsupported("a mark of undecided place")
        n[key][hit[0]] += 1
    for k, (i, j) in low.items():
        h.goal("%s-%d.both-sides" % (k[1], k[0]), n[k][i] == n[k][j] and n[k][i] > 0)
    h.goal("centre", n[0, "axvline"][0] == 1 and n[1, "axvline"][0] == 1)
