"""C36, C38-C43: plots, displays, angular radii, apertures, default bounds, isophote amplitudes, matching."""
import copy
import math
import warnings
import matplotlib
matplotlib.use("Agg")
import numpy as np
from matplotlib import pyplot as plt
from matplotlib.collections import LineCollection
from matplotlib.patches import Ellipse as MplEllipse
from .base import prop, need, close, same, rejects, Broken
from .petro import gal, READS
from .util import wcs25

from astropy import units as u
from astropy.nddata import CCDData, Cutout2D
from photutils.segmentation import SegmentationImage
from petrofit import photometry as P
from petrofit import segmentation as S
from petrofit import utils as U
from petrofit.modeling import models as M
from petrofit.petrosian import Petrosian

SET = ["eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "interp_kind", "interp_num"]


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


# ------------------------------------------------------------ C36

def gen_c36(rng, i):
    n = int(rng.integers(5, 13))
    r, A, L = gal(rng, n)
    how = ["plot", "cog", "imshow"][i % 3]
    st = {"eta": float(rng.choice([.1, .2, .35, .5])), "epsilon": float(rng.choice([.7, 1., 1.5, 2., 3.])), "epsilon_fraction": float(rng.choice([.5, .8, .99])), "total_flux_fraction": float(rng.choice([.5, .9, .99])),
          "interp_kind": [None, "linear", "cubic"][int(rng.integers(3))], "interp_num": int(rng.choice([30, 200]))}
    opt = {"plot_r": bool(rng.random() < .75), "err_alpha": [None, 0, .2, .6][int(rng.integers(4))], "show_legend": bool(rng.random() < .7), "radius_unit": [None, "", "pix", "arcsec"][int(rng.integers(4))], "title": str(rng.choice(["", "A title"]))}
    return {"r": r, "A": A, "L": L, "ea": rng.uniform(0, .5, n) if i % 4 == 0 else None, "ef": rng.uniform(.01, 1, n) if i % 5 < 3 else None, "st": st, "opt": {} if i % 4 == 1 else opt, "how": how,
            "ax": bool(rng.random() < .6), "pos": (round(float(rng.uniform(-5, 90)), 3), round(float(rng.uniform(-5, 90)), 3)), "elong": round(float(rng.uniform(1, 4)), 3), "theta": round(float(rng.uniform(-3, 3)), 3), "dflt": bool(rng.random() < .2)}


def ticks(ax):
    return [{k: str(v) for k, v in a._major_tick_kw.items()} for a in (ax.xaxis, ax.yaxis)] + [{k: str(v) for k, v in a._minor_tick_kw.items()} for a in (ax.xaxis, ax.yaxis)]


def drawn(ax):
    return len(ax.lines), len(ax.collections), len(ax.patches), len(ax.images), len(ax.texts), ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_legend() is None, ticks(ax)


def eqn(a, b, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * np.maximum(np.abs(b), 1e-12))))


def curve_drawn(ax, x, y, e, what):
    x, y = np.asarray(x, float), np.asarray(y, float)
    need(any(eqn(l.get_xdata(), x) and eqn(l.get_ydata(), y) for l in ax.lines), "%s is not drawn", what)
    if e is None:
        return
    segs = [np.asarray(s, float) for col in ax.collections if isinstance(col, LineCollection) for s in col.get_segments()]
    for i in range(len(x)):
        if np.isfinite(y[i]) and np.isfinite(e[i]):
            w = np.array([[x[i], y[i] - e[i]], [x[i], y[i] + e[i]]])
            need(any(s.shape == (2, 2) and (np.allclose(s, w, rtol=1e-8, atol=1e-9) or np.allclose(s[::-1], w, rtol=1e-8, atol=1e-9)) for s in segs), "%s: no error bar of %r at radius %r", what, float(e[i]), float(x[i]))


def band(ax, x, lo, hi, on, what):
    from matplotlib.collections import PolyCollection
    polys = [c for c in ax.collections if isinstance(c, PolyCollection)]
    need(bool(polys) == on, "%s: %d error bands drawn", what, len(polys))
    if on:
        pts = np.concatenate([p.vertices for c in polys for p in c.get_paths()])
        for i in range(len(x)):
            if np.isfinite(lo[i]) and np.isfinite(hi[i]):
                for v in (lo[i], hi[i]):
                    need(np.any(np.all(np.isclose(pts, [x[i], v], rtol=1e-8, atol=1e-9), axis=1)), "%s: the error band does not reach %r at radius %r", what, float(v), float(x[i]))


def marks(ax, axis):
    """positions of the lines across the whole axes"""
    out = []
    for l in ax.lines:
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        a, b = (x, y) if axis == "v" else (y, x)
        if a.shape == (2,) and a[0] == a[1] and np.array_equal(b, [0, 1]):
            out.append(float(a[0]))
    return sorted(out)


def expect_marks(ax, axis, want, what):
    want = sorted(float(w) for w in want if w is not None and not np.isnan(w))
    got = marks(ax, axis)
    need(len(got) == len(want) and np.allclose(got, want, rtol=1e-9), "%s: %s lines at %s, expected %s", what, "vertical" if axis == "v" else "horizontal", got, want)


@prop("C36", (150, 1500), "random objects, settings and options; the lines, error bars, bands, marks and ellipses on the axes against the object's own properties; object, data and other axes before and after", gen_c36)
def c36(c):
    data = {k: (None if c[k] is None else c[k].copy()) for k in ("r", "A", "L", "ea", "ef")}
    p = quiet(Petrosian, data["r"], data["A"], data["L"], area_err=data["ea"], flux_err=data["ef"], **c["st"])
    ref = quiet(Petrosian, data["r"].copy(), data["A"].copy(), data["L"].copy(), area_err=data["ea"], flux_err=data["ef"], **c["st"])
    v = {k: quiet(getattr, ref, k) for k in READS}
    plt.close("all")
    try:
        fig, (mine, other) = plt.subplots(1, 2)
        plt.sca(other if c["ax"] and c["how"] != "imshow" else mine)
        before = drawn(other)
        kw = dict(c["opt"])
        if c["how"] == "imshow":
            a = {} if c["dflt"] else dict(position=c["pos"], elong=c["elong"], theta=c["theta"])
            quiet(p.imshow, **a)
            pos, el, th = ((0, 0), 1.0, 0.0) if c["dflt"] else (c["pos"], c["elong"], c["theta"])
            want = [x for x in (v["r_half_light"], v["r_total_flux"], quiet(ref.fraction_flux_to_r, .2), quiet(ref.fraction_flux_to_r, .8)) if not np.isnan(x) and x > 0]
            got = [q for q in mine.patches if isinstance(q, MplEllipse)]
            need(len(got) == len(want), "%d ellipses drawn, expected %d", len(got), len(want))
            key = lambda t: t[0]
            g = sorted(((max(q.width, q.height) / 2, min(q.width, q.height) / 2, *q.center, math.degrees(0) + (q.angle if q.width >= q.height else q.angle + 90)) for q in got), key=key)
            for a, r in zip(g, sorted(want)):
                close(a[0], r, "semi-major axis", rtol=1e-9)
                close(a[1], r / el, "semi-minor axis", rtol=1e-9)
                close(np.array(a[2:4]), np.array(pos, float), "centre", rtol=1e-9, atol=1e-9)
                if el > 1.001:
                    d = (a[4] - math.degrees(th)) % 180
                    need(min(d, 180 - d) < 1e-6, "orientation %r, expected %r", a[4], math.degrees(th))
        else:
            if c["ax"]:
                kw["ax"] = mine
            ret = quiet(p.plot if c["how"] == "plot" else p.plot_cog, **kw)
            need(ret is mine, "the axes drawn on are not returned")
            pr, al = kw.get("plot_r", True), kw.get("err_alpha", .2)
            need((mine.get_legend() is not None) == kw.get("show_legend", True), "legend")
            ru = kw.get("radius_unit", "pix")
            need(mine.get_xlabel().strip() != "" and (not ru or ru in mine.get_xlabel()), "radius axis labelled %r", mine.get_xlabel())
            if c["how"] == "plot":
                e = v["petrosian_err"]
                curve_drawn(mine, v["r_list"], v["petrosian_list"], e, "Petrosian profile")
                if e is not None:
                    band(mine, v["r_list"], v["petrosian_list"] - e, v["petrosian_list"] + e, bool(al), "Petrosian profile")
                expect_marks(mine, "v", [v["r_petrosian"]] if pr else [], "profile plot")
                expect_marks(mine, "h", [0] + ([v["eta"]] if pr else []), "profile plot")
                rp, re = v["r_petrosian"], v["r_petrosian_err"]
                if pr and not np.isnan(rp) and re is not None and not np.isnan(re):
                    segs = [np.asarray(s, float) for col in mine.collections if isinstance(col, LineCollection) for s in col.get_segments()]
                    w = np.array([[rp - abs(re), v["eta"]], [rp + abs(re), v["eta"]]])
                    need(any(s.shape == (2, 2) and (np.allclose(s, w, rtol=1e-8, atol=1e-9) or np.allclose(s[::-1], w, rtol=1e-8, atol=1e-9)) for s in segs), "no error bar of the Petrosian radius")
            else:
                e = v["flux_err"]
                curve_drawn(mine, v["r_list"], v["flux_list"], e, "curve of growth")
                band(mine, v["r_list"], v["flux_list"] - (0 if e is None else e), v["flux_list"] + (0 if e is None else e), bool(al) and e is not None, "curve of growth")
                both = lambda a, b: [] if np.isnan(a) or np.isnan(b) or not pr else [(a, b)]
                w = both(v["r_half_light"], v["half_flux"]) + both(v["r_total_flux"], v["total_flux"])
                expect_marks(mine, "v", [a for a, b in w], "curve of growth plot")
                expect_marks(mine, "h", [b for a, b in w], "curve of growth plot")
        need(drawn(other) == before, "something was drawn on, or changed in, other axes")
        need(len(fig.axes) == 2 and plt.get_fignums() == [fig.number], "a figure or axes was added")
    finally:
        plt.close("all")
    need(all(getattr(p, k) == c["st"][k] for k in SET), "a setting changed")
    for k in ("r", "A", "L", "ea", "ef"):
        if c[k] is not None:
            same(data[k], c[k], "array %s" % k)
    for k in READS:
        x = quiet(getattr, p, k)
        if x is None or v[k] is None:
            need(x is None and v[k] is None, "%s changed", k)
        else:
            close(np.asarray(x, float), np.asarray(v[k], float), "%s after plotting" % k, rtol=1e-12)


# ------------------------------------------------------------ C38

def gen_c38(rng, i):
    n = int(rng.integers(5, 13))
    r, A, L = gal(rng, n)
    return {"r": r, "A": A, "L": L, "eta": float(rng.choice([.1, .2, .35, .5])), "epsilon": float(rng.choice([.7, 1., 1.5, 2., 3.])), "tff": float(rng.choice([.5, .9, .99])), "kind": [None, "linear", "cubic"][int(rng.integers(3))], "scale": float(10 ** rng.uniform(-6, -2)),
            "rot": float(rng.choice([0, rng.uniform(-3, 3)])), "flip": bool(rng.random() < .7), "ratio": 1.0 if i % 5 else float(rng.choice([1.1, .5, 3])), "proj": str(rng.choice(["TAN", "SIN"])), "cd": bool(rng.random() < .5)}


@prop("C38", (150, 1500), "random objects (radii defined or not) and coordinate systems (rotation, handedness, CD/PC, unequal scales)", gen_c38)
def c38(c):
    p = quiet(Petrosian, c["r"], c["A"], c["L"], eta=c["eta"], epsilon=c["epsilon"], total_flux_fraction=c["tff"], interp_kind=c["kind"])
    w = wcs25(c)
    for name, f in (("r_half_light", p.r_half_light_arcsec), ("r_total_flux", p.r_total_flux_arcsec)):
        r = quiet(getattr, p, name)
        if np.isnan(r):
            need(np.isnan(quiet(f, w)), "%s is undefined but its angle is not", name)
        elif c["ratio"] != 1:
            rejects(lambda: quiet(f, w), "unequal pixel scales")
        else:
            x = quiet(f, w)
            need(not hasattr(x, "unit"), "%s_arcsec carries a unit", name)
            close(float(x), r * c["scale"] * 3600, name + " in arcsec", rtol=1e-9)
            close(quiet(getattr, p, name), r, name + " afterwards", rtol=0)


# ------------------------------------------------------------ C39

def gen_c39(rng, i):
    f = lambda lo, hi: float(round(rng.uniform(lo, hi), 4))
    return {"pos": [(f(-20, 80), f(-20, 80)), (int(rng.integers(50)), int(rng.integers(50)))][i % 2], "r": int(rng.integers(1, 30)) if i % 3 == 0 else f(.05, 40), "dr": int(rng.integers(1, 9)) if i % 4 == 0 else f(.05, 12), "elong": f(1, 6) if i % 5 else 1.0,
            "theta": f(-3.2, 6.3), "dflt": bool(rng.random() < .2), "bad": bool(rng.random() < .1)}


@prop("C39", (400, 4000), "random centres, radii, thicknesses, elongations and angles (integers and reals)", gen_c39)
def c39(c):
    kw = {} if c["dflt"] else dict(elong=c["elong"], theta=c["theta"])
    el, th = (1.0, 0.0) if c["dflt"] else (c["elong"], c["theta"])
    if c["bad"]:
        rejects(lambda: P.radial_elliptical_aperture(c["pos"], -c["r"], **kw), "a negative radius")
        rejects(lambda: P.radial_elliptical_annulus(c["pos"], c["r"], -c["r"] / 2, **kw), "a negative thickness")
        return
    ang = lambda t: float(getattr(t, "to_value", lambda *_: t)("rad"))
    a = P.radial_elliptical_aperture(c["pos"], c["r"], **kw)
    close(np.array(a.positions, float), np.array(c["pos"], float), "centre", rtol=1e-12)
    close(float(a.a), c["r"], "semi-major axis", rtol=1e-12)
    close(float(a.b), c["r"] / el, "semi-minor axis", rtol=1e-12)
    close(ang(a.theta), th, "orientation", rtol=1e-12, atol=1e-12)
    close(float(a.area), math.pi * c["r"] ** 2 / el, "area", rtol=1e-10)
    n = P.radial_elliptical_annulus(c["pos"], c["r"], c["dr"], **kw)
    R = c["r"] + c["dr"]
    close(np.array(n.positions, float), np.array(c["pos"], float), "centre of the annulus", rtol=1e-12)
    for nm, g, w in (("inner semi-major axis", n.a_in, c["r"]), ("outer semi-major axis", n.a_out, R), ("inner semi-minor axis", n.b_in, c["r"] / el), ("outer semi-minor axis", n.b_out, R / el)):
        close(float(g), w, nm, rtol=1e-10)
    close(ang(n.theta), th, "orientation of the annulus", rtol=1e-12, atol=1e-12)
    close(float(n.area), math.pi * (R ** 2 - c["r"] ** 2) / el, "area of the annulus", rtol=1e-8)


# ------------------------------------------------------------ C40

PAR = ["amplitude", "r_eff", "n", "ellip", "theta", "c_0", "x_0", "y_0"]


def gen_c40(rng, i):
    ops = []
    for _ in range(int(rng.integers(2, 7))):
        ov = None
        if rng.random() < .6:
            ov = {str(k): (None if rng.random() < .2 else float(rng.uniform(-5, 0)), None if rng.random() < .2 else float(rng.uniform(0, 9))) for k in rng.choice(PAR, int(rng.integers(0, 4)), replace=False)}
        ops.append([str(rng.choice(["sersic", "gen"])), ov, bool(rng.random() < .4), bool(rng.random() < .3)])
    return {"ops": ops}


@prop("C40", (200, 2000), "random sequences of calls with and without overrides, results and overrides changed in between", gen_c40)
def c40(c):
    base = {"amplitude": (0.0, None), "r_eff": (1e-3, None), "n": (0.1, 10), "ellip": (0, 0.99), "theta": (-2 * np.pi, 2 * np.pi)}
    for kind, ov, spoil, spoil_ov in c["ops"]:
        f = M.get_default_sersic_bounds if kind == "sersic" else M.get_default_gen_sersic_bounds
        mine = None if ov is None else dict(ov)
        got = f() if ov is None else f(mine) if len(ov) % 2 else f(override=mine)
        want = dict(base)
        if kind == "gen":
            want["c_0"] = (0, 2.0)
        want.update(ov or {})
        need(isinstance(got, dict) and {k: tuple(v) for k, v in got.items()} == want, "%s bounds with override %s: %s, expected %s", kind, ov, got, want)
        need(mine == ov, "the override was modified")
        need(got is not mine, "the override itself is returned")
        if spoil:
            got["n"] = (5, 6)
            got["extra"] = (0, 1)
            got.pop("ellip", None)
            need(mine == ov, "the override changes with the result")
        if spoil_ov and mine is not None:
            keep = dict(got)
            mine["theta"] = (7, 8)
            need(got == keep, "the result changes with the override")


# ------------------------------------------------------------ C41

def gen_c41(rng, i):
    ny, nx = int(rng.integers(3, 20)), int(rng.integers(3, 20))
    seg = rng.integers(0, 4, (ny, nx)) * (rng.random((ny, nx)) < .5)
    seg[0, 0] = 1
    im = rng.normal(1, 3, (ny, nx))
    if i % 3 == 0:
        im = np.round(im * 10).astype(int)
    return {"im": im, "seg": seg, "how": ["residual", "segments", "target", "apertures"][i % 4], "pos": (round(float(rng.uniform(0, nx)), 2), round(float(rng.uniform(0, ny)), 2)), "size": [None, int(rng.integers(2, 15)), round(float(rng.uniform(2, 15)), 1)][int(rng.integers(3))],
            "v": (float(rng.uniform(-3, 0)), float(rng.uniform(1, 5))) if rng.random() < .5 else None, "aps": [(round(float(rng.uniform(.5, 6)), 3), round(float(rng.uniform(1, 3)), 3), round(float(rng.uniform(-3, 3)), 3)) for _ in range(int(rng.integers(0, 4) if i % 8 != 7 else rng.integers(4, 13)))], "noim": bool(rng.random() < .2), "ccd": bool(rng.random() < .2)}


def shown(ax, k, want, v, what):
    need(len(ax.images) > k, "%s is not shown", what)
    a = ax.images[k]
    got = np.ma.filled(np.ma.asarray(a.get_array(), dtype=float), np.nan)
    close(got, np.asarray(want, float), what, rtol=1e-12)
    if v is not None:
        close(np.array(a.get_clim(), float), np.array(v, float), what + ": colour limits", rtol=1e-12)


@prop("C41", (160, 1600), "random images, label maps, targets, windows and apertures; the images, limits and outlines on the axes against the arguments; arguments before and after", gen_c41)
def c41(c):
    im, keep = c["im"].copy(), c["im"].copy()
    sg = SegmentationImage(c["seg"].copy())
    kw = {} if c["v"] is None else dict(vmin=c["v"][0], vmax=c["v"][1])
    plt.close("all")
    try:
        fig, ax = plt.subplots()
        if c["how"] == "residual":
            S.plot_segment_residual(sg, im, **kw)
            want = im.copy()
            want[c["seg"] != 0] = 0
            need(len(ax.images) == 1, "%d images", len(ax.images))
            shown(ax, 0, want, c["v"], "image without the segments")
        elif c["how"] == "segments":
            S.plot_segments(sg, **({} if c["noim"] else {"image": im}), **kw)
            need(len(ax.images) == (1 if c["noim"] else 2), "%d images", len(ax.images))
            if not c["noim"]:
                shown(ax, 0, im, c["v"], "image")
            shown(ax, len(ax.images) - 1, c["seg"], None, "segments")
        elif c["how"] == "target":
            given = CCDData(im, unit="adu") if c["ccd"] else im
            U.plot_target(given, c["pos"], **({} if c["size"] is None else {"size": c["size"]}), **kw)
            s = max(im.shape) if c["size"] is None else c["size"]
            x, y = c["pos"]
            shown(ax, 0, im, c["v"], "image")
            close(np.array(ax.get_xlim()), np.array([x - s / 2, x + s / 2]), "x window", rtol=1e-9, atol=1e-9)
            close(np.array(ax.get_ylim()), np.array([y - s / 2, y + s / 2]), "y window", rtol=1e-9, atol=1e-9)
            need(any(eqn(np.atleast_1d(l.get_xdata()), [x]) and eqn(np.atleast_1d(l.get_ydata()), [y]) for l in ax.lines), "the target is not marked")
        else:
            aps = [P.radial_elliptical_aperture(c["pos"], r, e, t) for r, e, t in c["aps"]]
            P.plot_apertures(None if c["noim"] else im, aps, **kw)
            need(len(ax.images) == (0 if c["noim"] else 1), "%d images", len(ax.images))
            if not c["noim"]:
                shown(ax, 0, im, c["v"], "image")
            got = [q for q in ax.patches if isinstance(q, MplEllipse)]
            need(len(got) == len(aps), "%d outlines for %d apertures", len(got), len(aps))
            # in any order; the angle as that of an ellipse
            key = lambda v: tuple(np.round(v, 6))
            turn = lambda w, h, a: (math.cos(2 * a), math.sin(2 * a)) if abs(w - h) > 1e-9 * w else (0., 0.)
            have = sorted(([*q.center, q.width, q.height, *turn(q.width, q.height, math.radians(q.angle))] for q in got), key=key)
            want = sorted(([*c["pos"], 2 * r, 2 * r / e, *turn(2 * r, 2 * r / e, t)] for r, e, t in c["aps"]), key=key)
            for a, b in zip(have, want):
                close(np.array(a), np.array(b), "outline", rtol=1e-9, atol=1e-9)
        need(plt.get_fignums() == [fig.number] and len(fig.axes) == 1, "a figure or axes was added")
    finally:
        plt.close("all")
    same(im, keep, "image")
    same(np.asarray(sg.data), c["seg"], "segments")


# ------------------------------------------------------------ C42

def gen_c42(rng, i):
    return {"n": float(rng.choice([1.0, 2.0])), "re": round(float(rng.uniform(8, 14)), 3), "amp": round(float(10 ** rng.uniform(0, 3)), 4), "ellip": round(float(rng.uniform(.1, .5) if i % 5 else rng.uniform(.001, .04)), 3), "theta": round(float(rng.uniform(.3, 2.8)), 3), "x": round(float(rng.uniform(40, 46)), 2), "y": round(float(rng.uniform(34, 40)), 2), "r": [10, 12.5, 15, float(rng.uniform(9, 16))][i % 4],
            "form": ["array", "ccd", "cutout"][i % 3], "bad": ["", "", "", "nan", "1d", "far"][i % 6]}


@prop("C42", (60, 500), "isophotes of rendered elliptical profiles in arrays, images with units and cutouts; images without an isophote", gen_c42)
def c42(c):
    from astropy.modeling.models import Sersic2D
    y, x = np.mgrid[:76, :86]
    im = Sersic2D(c["amp"], c["re"], c["n"], c["x"], c["y"], c["ellip"], c["theta"])(x, y)
    keep = im.copy()
    args = (c["x"], c["y"], c["ellip"], c["theta"])
    if c["bad"]:
        img = {"nan": np.full((30, 30), np.nan), "1d": np.ones(5), "far": im}[c["bad"]]
        r = quiet(S.get_amplitude_at_r, 5., img, *((4000., 4000.) + args[2:] if c["bad"] == "far" else (15., 15.) + args[2:]))
        need(r is None or np.isnan(r), "amplitude %r where there is no isophote", r)
        return
    given = {"array": im, "ccd": CCDData(im, unit="adu"), "cutout": Cutout2D(im, (43, 38), im.shape, mode="partial")}[c["form"]] if c["form"] != "cutout" else Cutout2D(im, (42.5, 37.5), im.shape)
    from photutils.isophote import Ellipse as PhotEllipse
    starts, init = [], PhotEllipse.__init__
    axes, fit = [], PhotEllipse.fit_isophote

    def watch(self, image, geometry=None, *a, **k):
        starts.append(None if geometry is None else (geometry.x0, geometry.y0, geometry.eps, geometry.pa))
        return init(self, image, geometry, *a, **k)

    def watch_fit(self, sma, *a, **k):
        axes.append(sma)
        return fit(self, sma, *a, **k)

    PhotEllipse.__init__, PhotEllipse.fit_isophote = watch, watch_fit
    try:
        got = quiet(S.get_amplitude_at_r, c["r"], given, *args)
    finally:
        PhotEllipse.__init__, PhotEllipse.fit_isophote = init, fit
    if len(axes) == 1:
        close(float(axes[0]), c["r"], "semi-major axis of the isophote", rtol=1e-9)
    if len(starts) == 1 and starts[0] is not None:
        g = starts[0]
        close(np.array([*g[:3], math.cos(2 * g[3]), math.sin(2 * g[3])], float), np.array([*args[:3], math.cos(2 * args[3]), math.sin(2 * args[3])]), "starting geometry of the isophote", rtol=1e-9, atol=1e-9)
    want = float(Sersic2D(c["amp"], c["re"], c["n"], 0, 0, 0, 0)(c["r"], 0.))
    close(float(got), want, "amplitude at radius %r" % c["r"], rtol=.03)
    same(im, keep, "image")


# ------------------------------------------------------------ C43

def gen_c43(rng, i):
    n, m = int(rng.integers(1, 12)), int(rng.integers(2, 15))
    un = ["deg", "rad", None][i % 3]
    s = math.pi / 180 if un == "rad" else 1
    mk = lambda k: (rng.uniform(0, 360, k) if i % 2 else rng.uniform(359, 361, k) % 360, rng.uniform(-85, 85, k) if i % 2 else rng.uniform(60, 61, k))
    a, b = mk(n), mk(m)
    return {"a": [v * s for v in a], "b": [v * s for v in b], "unit": un}


@prop("C43", (120, 1200), "random catalogues (all sky, crossing right ascension 0) against great-circle distances to every candidate", gen_c43)
def c43(c):
    (r1, d1), (r2, d2) = c["a"], c["b"]
    keep = [v.copy() for v in (r1, d1, r2, d2)]
    out = U.match_catalogs(r1, d1, r2, d2, **({} if c["unit"] is None else {"unit": c["unit"]}))
    s = 1 if c["unit"] == "rad" else math.pi / 180
    vec = lambda r, d: np.stack([np.cos(d * s) * np.cos(r * s), np.cos(d * s) * np.sin(r * s), np.sin(d * s)], -1)
    A, B = vec(r1, d1), vec(r2, d2)
    D = np.linalg.norm(A[:, None] - B[None], axis=-1)
    idx, sep = np.asarray(out[0]), out[1]
    need(idx.shape == (len(r1),), "%s matches for %d sources", idx.shape, len(r1))
    need(np.all((idx >= 0) & (idx < len(r2))), "index out of range")
    close(D[np.arange(len(r1)), idx], D.min(1), "distance of the match", rtol=1e-7, atol=1e-12)
    close(sep.to_value("rad"), 2 * np.arcsin(np.clip(D.min(1) / 2, 0, 1)), "separation", rtol=1e-6, atol=1e-12)
    for a, b in zip((r1, d1, r2, d2), keep):
        same(a, b, "coordinates")


# ------------------------------------------------------------ C44

def gen_c44(rng, i):
    from .corr import gen_p, COLS
    k = int(rng.integers(2, 12))
    p = gen_p(rng)
    if rng.random() < .3:
        p["epsilon"] = 1.5
    if rng.random() < .4:
        p["eta"] = .3
    return {"p": p, "rel": np.round(rng.normal(0, 1, (k, 3)), 4), "scale": np.round(10 ** rng.uniform(-2, .3, 3), 4), "vals": rng.uniform(1, 50, (k, len(COLS))), "axs": [None, "row", "list", "two", "four"][[0, 1, 2, 0, 1, 2, 3, 4][i % 8]], "key": [None, "n", "r_eff", "p05"][i % 4], "label": bool(i % 3)}


@prop("C44", (64, 400), "random grids around the measurements of real objects, given and new axes; points, colours, marks and connections on the axes; object and grid before and after", gen_c44)
def c44(c):
    from .corr import petro, COLS, K, PetrosianCorrection, Table
    p = petro(c["p"])
    m = np.array([K.calculate_petrosian_r(p.r_list, p.petrosian_list, eta=.2)[0], p.r_half_light, p.c2080], float)
    if np.isnan(m).any():
        return
    vals = c["vals"].copy()
    ax3 = [COLS.index(a) for a in ("p02", "u_r_50", "u_c2080")]
    vals[:, ax3] = m + c["rel"] * c["scale"]
    grid = Table({n: vals[:, j] for j, n in enumerate(COLS)})
    keep = grid.copy()
    pc = PetrosianCorrection(grid)
    st = {k: getattr(p, k) for k in SET}
    X = [np.asarray(keep[a], float) for a in ("p02", "u_r_50", "u_c2080")]
    d = sum(((x - v) / x.std()) ** 2 for x, v in zip(X, m))
    plt.close("all")
    try:
        kw = {} if c["key"] is None else {"cmap_key": c["key"]}
        if c["label"]:
            kw.update(suptitle="A grid", colorbar_label="a label", target_c="red", cmap="viridis")
        fig = None
        if c["axs"] is not None:
            fig, a = plt.subplots(1, {"two": 2, "four": 4}.get(c["axs"], 3))
            if c["axs"] in ("two", "four"):
                rejects(lambda: quiet(pc.plot_correction, p, axs=a, **kw), "a plot on %s axes" % c["axs"])
                return
            kw["axs"] = list(a) if c["axs"] == "list" else a
        of, oa = quiet(pc.plot_correction, p, **kw)
        need(len(oa) == 3, "%d axes returned", len(oa))
        if fig is not None:
            need(of is fig and all(x is y for x, y in zip(oa, a)), "the given axes and their figure are not returned")
        else:
            need(plt.get_fignums() == [of.number] and all(x.figure is of for x in oa), "the figure of the axes is not returned")
        for ax, (i, j) in zip(oa, [(0, 1), (0, 2), (1, 2)]):
            cs = [q for q in ax.collections if len(q.get_offsets())]
            pts = [q for q in cs if len(q.get_offsets()) == len(keep) and q.get_array() is not None]
            need(len(pts) == 1, "%d sets of grid points", len(pts))
            close(np.asarray(pts[0].get_offsets(), float), np.stack([X[i], X[j]], 1), "grid points", rtol=1e-12)
            close(np.asarray(pts[0].get_array(), float), np.asarray(keep[c["key"] or "n"], float), "colours of the grid points", rtol=1e-12)
            tg = [q for q in cs if q is not pts[0]]
            need(len(tg) == 1 and len(tg[0].get_offsets()) == 1, "the measurement is not marked once")
            close(np.asarray(tg[0].get_offsets()[0], float), m[[i, j]], "mark of the measurement", rtol=1e-9)
            need(len(ax.lines) == 1, "%d connections", len(ax.lines))
            x, y = np.asarray(ax.lines[0].get_xdata(), float), np.asarray(ax.lines[0].get_ydata(), float)
            close(np.array([x[0], y[0]]), m[[i, j]], "start of the connection", rtol=1e-9)
            need(any(dk <= d.min() * (1 + 1e-7) + 1e-12 and abs(X[i][k] - x[1]) <= 1e-9 * abs(x[1]) and abs(X[j][k] - y[1]) <= 1e-9 * abs(y[1]) for k, dk in enumerate(d)), "the measurement is connected to (%s, %s), not to the nearest row", x[1], y[1])
    finally:
        plt.close("all")
    need(grid.colnames == keep.colnames and len(grid) == len(keep), "grid layout changed")
    for n in keep.colnames:
        same(np.asarray(grid[n]), np.asarray(keep[n]), "grid column " + n)
    need(all(getattr(p, k) == v for k, v in st.items()), "a setting of the object changed")
