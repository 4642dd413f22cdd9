"""C20, C21, C29: fitting and rendering."""
import contextlib
import io
import math
import re
from unittest import mock
import numpy as np
from .base import prop, need, close, same, rejects, Broken

from astropy.modeling import models as AM, fitting as AF
from astropy.nddata import CCDData, Cutout2D
from astropy.stats import sigma_clip
from astropy.convolution.utils import discretize_model
from matplotlib import pyplot as plt
from petrofit.modeling import fitting as F
from petrofit.modeling import models as M

STD = {"trf": AF.TRFLSQFitter, "lev": AF.LevMarLSQFitter, "lm": AF.LMLSQFitter}


# ------------------------------------------------------------ C20

def gen_c20(rng, i):
    ny, nx = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    im = np.round(rng.normal(3, 4, (ny, nx)), 4)
    if i % 6 == 5:
        im = np.round(im).astype(int)
    bad = rng.random((ny, nx)) < rng.choice([0, .2, .5])
    if im.dtype.kind == "f":
        im[bad] = np.nan
    c = {"image": im, "mask": None, "weights": None, "how": ["fit", "fit", "fit", "bg", "fit", "badw"][i % 6] if i % 12 else "real",
         "fitter": ["trf", "lev", "lm", "custom", "dogbox"][int(rng.integers(5))], "set": None, "unc": bool(rng.random() < .3), "sigma": [3.0, 1.5, None, 2, 1.0][int(rng.integers(5))], "model": int(rng.integers(3))}
    if rng.random() < .35:
        c["mask"] = rng.random((ny, nx)) < .3
    if rng.random() < .6 or c["how"] == "badw":
        c["weights"] = np.round(rng.uniform(.1, 5, (ny, nx)), 3)
    if rng.random() < .5:
        c["set"] = {"maxiter": int(rng.integers(1, 99)), "epsilon": float(rng.choice([1e-4, 1e-9])), "acc": float(rng.choice([1e-3, 1e-8])), "estimate_jacobian": bool(rng.random() < .5)}
    if c["how"] == "bg":
        im = rng.normal(0, 1, (ny + 6, nx + 6))
        im[rng.random(im.shape) < .08] += rng.choice([5, -9, 30])
        if i % 4 == 1:
            im[rng.random(im.shape) < .1] = np.nan
        c["image"], c["mask"], c["weights"] = im, None, None
    if c["how"] == "badw":
        sh = [(ny + 1, nx), (ny, nx + 1), (ny * nx,), (ny + 2, nx + 3)][int(rng.integers(4))]
        if sh == (ny, nx):
            sh = (ny, nx + 1)
        c["weights"] = np.ones(sh)
    return c


def models20(k):
    return [lambda: AM.Planar2D(.1, .2, .3), lambda: AM.Gaussian2D(2., 2., 2., 1., 1.), lambda: AM.Polynomial2D(1)][k]()


class Spy:
    """a fitter class that records what it is given"""

    def __init__(self, calc_uncertainties=False):
        self.unc = calc_uncertainties
        self.calls = []

    def __call__(self, model, x, y, z=None, weights=None):
        self.calls.append((model, x, y, z, weights))
        return model.copy()


@prop("C20", (300, 4000), "random images, masks, NaN and weights against spy and patched astropy fitters; wrong weight shapes; backgrounds with outliers; real least squares", gen_c20)
def c20(c):
    im0 = c["image"]
    im = im0.copy()
    img = im if c["mask"] is None else np.ma.array(im, mask=c["mask"])
    ok = ~np.isnan(im0.astype(float))
    if c["mask"] is not None:
        ok &= ~c["mask"]
    w = None if c["weights"] is None else c["weights"].copy()
    model = models20(c["model"])
    par0 = model.parameters.copy()
    kw = dict(c["set"] or {})
    if c["how"] == "badw":
        rejects(lambda: F.fit_model(img, model, weights=w, fitter=Spy), "weights of shape %s for an image of shape %s" % (w.shape, im.shape))
        return
    if c["how"] == "real":
        model = AM.Planar2D(.1, .2, .3)
        par0 = model.parameters.copy()
        if ok.sum() < 4:
            return
        y, x = np.nonzero(ok)
        A = np.stack([x, y, np.ones_like(x)], 1).astype(float)
        if np.linalg.matrix_rank(A) < 3:
            return
        ww = np.ones(len(x)) if w is None else w[ok]
        sol = np.linalg.lstsq(A * ww[:, None], im0[ok] * ww, rcond=None)[0]
        got, ft = F.fit_model(img, model, weights=w, fitter=AF.LinearLSQFitter)
        need(isinstance(ft, AF.LinearLSQFitter), "fitter returned is %r", ft)
        close(got.parameters, sol, "weighted plane through the valid pixels", rtol=1e-5, atol=1e-6)
        need(np.array_equal(model.parameters, par0), "the input model changed")
        same(im, im0, "image")
        return
    calls = []
    insts = []
    if c["how"] == "bg":
        made = []

        class Bg(Spy):
            def __init__(self, calc_uncertainties=False):
                super().__init__(calc_uncertainties)
                made.append(self)
        got, ft = F.fit_background(im, model, sigma=c["sigma"], fitter=Bg, calc_uncertainties=c["unc"])
        if c["sigma"] is not None:
            cl = sigma_clip(im0, c["sigma"])
            ok = ~np.isnan(im0) & ~np.ma.getmaskarray(cl)
        need(len(made) == 1 and ft is made[0], "the fitter returned is not the fitter used")
        need(len(ft.calls) == 1 and ft.unc is c["unc"], "fitter calls")
        m_, x, y, z, ww = ft.calls[0]
        w = None
    elif c["fitter"] == "custom":
        made = []

        class One(Spy):
            def __init__(self, calc_uncertainties=False):
                super().__init__(calc_uncertainties)
                made.append(self)
        got, ft = F.fit_model(img, model, weights=w, fitter=One, calc_uncertainties=c["unc"], **kw)
        need(len(made) == 1 and ft is made[0], "the fitter returned is not the fitter used")
        need(len(ft.calls) == 1 and ft.unc == c["unc"], "fitter calls")
        m_, x, y, z, ww = ft.calls[0]
    else:
        cls = STD.get(c["fitter"], AF.DogBoxLSQFitter)
        rec = []

        def fake(self, model, x, y, z=None, weights=None, maxiter="dflt", acc="dflt", epsilon="dflt", estimate_jacobian="dflt", **k2):
            rec.append((self, model, x, y, z, weights, dict(maxiter=maxiter, acc=acc, epsilon=epsilon, estimate_jacobian=estimate_jacobian), k2))
            return model.copy()
        with mock.patch.object(cls, "__call__", fake):
            a = {} if c["fitter"] == "trf" and c["unc"] else {"fitter": cls}
            got, ft = F.fit_model(img, model, weights=w, calc_uncertainties=c["unc"], **a, **kw)
        need(len(rec) == 1 and rec[0][0] is ft and isinstance(ft, cls), "the fitter returned is not the fitter used")
        _, m_, x, y, z, ww, opts, k2 = rec[0]
        need(bool(ft._calc_uncertainties) == c["unc"], "calc_uncertainties")
        if c["fitter"] in STD:
            want = dict(maxiter=5000, epsilon=F.DEFAULT_EPS, acc=F.DEFAULT_ACC, estimate_jacobian=False)
            want.update(kw)
            need(opts == want, "fit settings %s, expected %s", opts, want)
    yy, xx = np.nonzero(ok)
    need(np.shape(x) == xx.shape and np.shape(y) == yy.shape and np.shape(z) == xx.shape, "%s pixels passed to the fitter, %d valid", np.shape(z), len(xx))
    x, y, z = np.asarray(x), np.asarray(y), np.asarray(np.ma.getdata(z))
    need(not np.any(np.ma.getmaskarray(z)), "masked values passed to the fitter")
    o = np.lexsort((x, y))
    need(np.array_equal(x[o], xx) and np.array_equal(y[o], yy), "pixel coordinates x=%s y=%s, expected x=%s y=%s", x[o], y[o], xx, yy)
    need(np.array_equal(z[o], im0[ok]), "pixel values")
    if w is None:
        need(ww is None or np.all(np.asarray(ww) == 1), "weights invented")
    else:
        need(ww is not None and np.shape(ww) == xx.shape and np.array_equal(np.asarray(ww)[o], c["weights"][ok]), "weights of the pixels")
        same(w, c["weights"], "weights")
    need(np.array_equal(m_.parameters, par0), "model passed to the fitter")
    need(np.array_equal(model.parameters, par0), "the input model changed")
    need(got is not model, "the input model was returned")
    same(im, im0, "image")
    if c["mask"] is not None:
        need(np.array_equal(np.ma.getmaskarray(img), c["mask"]), "mask of the image modified")


# ------------------------------------------------------------ C21

def gen_c21(rng, i):
    kind = i % 10
    nx, ny = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    size = [(nx, ny), [nx, ny], nx, float(nx), np.int32(nx), (float(nx), ny)][int(rng.integers(6))]
    c = {"size": size, "center": None, "mode": "center", "factor": 1, "m": int(rng.integers(3)), "bad": None}
    if rng.random() < .6:
        ct = [int(v) for v in rng.integers(-15, 30, 2)]
        if rng.random() < .3:
            ct = [v + float(rng.choice([0, .5, .25])) for v in ct]
        c["center"] = tuple(ct) if rng.random() < .6 else ct
    if kind == 8:
        c["bad"] = ["2.5", "str", "triple", "frac", "none", "one", "fracx", "npfrac"][int(rng.integers(8))]
    elif kind == 9:
        c["bad"] = ["c3", "cint", "cstr", "c1"][int(rng.integers(4))]
    elif kind in (5, 6):
        c["mode"] = ["oversample", "linear_interp"][kind - 5]
        c["factor"] = int(rng.integers(2, 6)) if kind == 5 else 1
        if not isinstance(size, (tuple, list)):
            c["size"] = max(2, int(size))
        else:
            c["size"] = (max(2, nx), max(2, ny))
        if c["center"] is not None:
            c["center"] = tuple(int(v) for v in c["center"])
    return c


def m21(k):
    return [lambda: AM.Polynomial2D(2, c0_0=.3, c1_0=1.7, c0_1=-.6, c2_0=.21, c0_2=-.13, c1_1=.37),
            lambda: AM.Gaussian2D(5., 3.1, 2.2, 2., 3., .4), lambda: AM.Sersic2D(1., 4., 1.3, 20.4, 21.3, .3, .5)][k]()


@prop("C21", (400, 4000), "random sizes (int, float, pairs), centres, modes; malformed sizes and centres", gen_c21)
def c21(c):
    m = m21(c["m"])
    if c["bad"]:
        sz = {"2.5": 2.5, "str": "5", "triple": (3, 4, 5), "frac": (3, 4.5), "fracx": [2.5, 3], "npfrac": np.float64(3.25), "none": None, "one": (3,)}.get(c["bad"], 5)
        ct = {"c3": (1, 2, 3), "cint": 4, "cstr": "ab", "c1": [3]}.get(c["bad"])
        rejects(lambda: F.model_to_image(m, sz, center=ct), "size %r centre %r" % (sz, ct))
        return
    s = c["size"]
    nx, ny = (int(s[0]), int(s[1])) if isinstance(s, (tuple, list)) else (int(s), int(s))
    if c["center"] is None:
        x0, y0 = 0, 0
    else:
        x0, y0 = c["center"][0] - nx // 2, c["center"][1] - ny // 2
    frac = (x0 % 1 != 0) or (y0 % 1 != 0)
    if c["center"] is not None:
        o = F.model_center_to_image_origin(c["center"], s)
        need(len(o) == 2 and o[0] == x0 and o[1] == y0, "origin %s, expected %s", o, (x0, y0))
    kw = {} if c["center"] is None else {"center": c["center"]}
    if c["mode"] != "center":
        kw.update(mode=c["mode"], factor=c["factor"])
    try:
        got = F.model_to_image(m, s, **kw)
    except ValueError:
        need(frac, "rendering size %s at %s raised", s, c["center"])
        return
    if c["mode"] == "center":
        yy, xx = np.mgrid[0:ny, 0:nx]
        want = m(xx + float(x0), yy + float(y0))
    else:
        want = discretize_model(m, (x0, x0 + nx), (y0, y0 + ny), mode=c["mode"], factor=c["factor"])
    need(np.shape(got) == (ny, nx), "image of shape %s for size (nx=%d, ny=%d)", np.shape(got), nx, ny)
    close(got, want, "rendered image", rtol=1e-9, atol=1e-12)


# ------------------------------------------------------------ C29

def gen_c29(rng, i):
    ny, nx = int(rng.integers(8, 26)), int(rng.integers(8, 26))
    ct = None if i % 3 == 0 else tuple(int(v) for v in rng.integers(-10, 30, 2))
    return {"shape": (ny, nx), "center": ct, "how": ["plot", "fwhm", "fwhm_plot"][i % 3 if i % 4 else 0], "wrap": ["array", "ccd", "cutout"][int(rng.integers(3))], "seed": int(rng.integers(1e6)),
            "sx": float(rng.uniform(1.2, 3)), "sy": float(rng.uniform(1.2, 3)), "amp": float(rng.uniform(2, 40)), "noise": float(rng.choice([0, .01])), "lims": [False, True, "vmin", "vmax"][int(rng.integers(4))], "mode": ["center", "center", "oversample"][int(rng.integers(3))],
            "cbar": bool(rng.random() < .6)}


@prop("C29", (16, 160), "random Gaussian and noise images, containers and centres; plots on the Agg back end", gen_c29)
def c29(c):
    ny, nx = c["shape"]
    g = np.random.default_rng(c["seed"])
    yy, xx = np.mgrid[0:ny, 0:nx]
    truth = AM.Gaussian2D(c["amp"], nx // 2 + .3, ny // 2 - .2, c["sx"], c["sy"], 0)
    im0 = truth(xx, yy) + c["noise"] * g.normal(size=(ny, nx))
    im = im0.copy()
    try:
        if c["how"] == "plot":
            box = {"array": lambda: im, "ccd": lambda: CCDData(im, unit="adu"), "cutout": lambda: Cutout2D(im, (nx // 2, ny // 2), (ny, nx))}[c["wrap"]]()
            m = AM.Sersic2D(2., 4., 1.1, 7.3, 6.2, .3, .4)
            kw = {}
            if c["center"] is not None:
                kw["center"] = c["center"]
            lims = {} if not c["lims"] else {k: v for k, v in (("vmin", -1), ("vmax", 3)) if c["lims"] in (True, k)}
            kw.update(lims)
            if c["mode"] != "center":
                kw["mode"] = c["mode"]
            axs, cb, mi, ri = F.plot_fit(m, box, cbar=c["cbar"], **kw)
            x0, y0 = (0, 0) if c["center"] is None else (c["center"][0] - nx // 2, c["center"][1] - ny // 2)
            want = m(xx + float(x0), yy + float(y0)) if c["mode"] == "center" else discretize_model(m, (x0, x0 + nx), (y0, y0 + ny), mode=c["mode"], factor=1)
            close(mi, want, "model image", rtol=1e-9, atol=1e-12)
            close(ri, im0 - want, "residual image", rtol=1e-9, atol=1e-9)
            need(len(axs) == 3 and (cb is not None) == c["cbar"], "axes or colour bar")
            shown = [np.asarray(a.images[0].get_array()) for a in axs]
            close(shown[0], im0, "data panel", atol=1e-12)
            close(shown[1], want, "model panel", rtol=1e-9, atol=1e-12)
            close(shown[2], im0 - want, "residual panel", rtol=1e-9, atol=1e-9)
            for k, (a, nm) in enumerate(zip(axs, ("Data", "Model", "Residual"))):
                need(a.get_title() == nm, "panel %d is titled %r", k, a.get_title())
                for v, g, g0 in zip(("vmin", "vmax"), a.images[0].get_clim(), axs[0].images[0].get_clim()):
                    need(g == lims.get(v, g0), "%s panel has %s %r instead of %r", nm, v, g, lims.get(v, g0))
        else:
            with mock.patch.object(plt, "show"):
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    fw = F.measure_fwhm(im, plot=c["how"] == "fwhm_plot", printout=bool(c["seed"] % 2))
            need(bool(out.getvalue()) == bool(c["seed"] % 2), "printout")
            k = 2 * math.sqrt(2 * math.log(2))
            need(np.shape(fw) == (2,), "widths of shape %s", np.shape(fw))
            if c["noise"] == 0:
                fit = sorted([c["sx"] * k, c["sy"] * k])
            ref = F.fit_gaussian2d(im0)
            mid = [float(ref.x_mean.value), float(ref.y_mean.value)]
            half = [float(ref.x_stddev.value) * k / 2, float(ref.y_stddev.value) * k / 2]
            if c["seed"] % 2:
                for tag, pair in (("FWHM", [2 * v for v in half]), ("Center", mid)):
                    line = [x for x in out.getvalue().splitlines() if x.startswith(tag + ":")]
                    got = re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line[0].replace("float64", "")) if line else []
                    need(len(got) == 2, "printed %s: %r", tag, line)
                    close(np.array(got, float), pair, "printed %s" % tag, rtol=1e-6, atol=1e-9)
            if c["how"] == "fwhm_plot":
                fig = [plt.figure(n) for n in plt.get_fignums()]
                axes = [a for f in fig for a in f.axes]
                pim, px, py = [a for a in axes if a.images and np.shape(a.images[0].get_array()) == (ny, nx)][0], fig[-1].axes[0], fig[-1].axes[1]
                top = float(ref(mid[0], mid[1])) / 2

                def at(a, vertical):
                    return sorted(float(l.get_xdata()[0] if vertical else l.get_ydata()[0]) for l in a.lines
                                  if len(l.get_xdata()) == 2 and (l.get_xdata()[0] == l.get_xdata()[1] and list(l.get_ydata()) == [0, 1] if vertical else l.get_ydata()[0] == l.get_ydata()[1] and list(l.get_xdata()) == [0, 1]))
                ends = lambda i: [mid[i] - abs(half[i]), mid[i] + abs(half[i])]
                for a, nm, v, w in ((pim, "image, x", True, ends(0)), (pim, "image, y", False, ends(1)), (px, "x profile", True, ends(0) + mid[:1]), (py, "y profile", True, ends(1) + mid[1:]),
                                    (px, "x profile, half maximum", False, [top]), (py, "y profile, half maximum", False, [top])):
                    got = at(a, v)
                    need(len(got) == len(w), "%d marks on the %s", len(got), nm)
                    close(np.array(got), sorted(w), "marks on the " + nm, rtol=1e-6, atol=1e-6)
            close(np.asarray(fw, float), [float(ref.x_stddev.value) * k, float(ref.y_stddev.value) * k], "FWHM", rtol=1e-9)
            if c["noise"] == 0:
                # whichever axis the fit calls x, the pair of widths of an exact Gaussian near the middle is its own
                close(np.sort(np.abs(np.asarray(fw, float))), fit, "FWHM pair of a noiseless Gaussian", rtol=1e-3)
            if c["noise"] == 0 and abs(float(ref.theta.value)) < 1e-3:
                close(np.abs(np.asarray(fw, float)), [c["sx"] * k, c["sy"] * k], "FWHM of a noiseless Gaussian", rtol=1e-3)
        same(im, im0, "image")
    finally:
        plt.close("all")
