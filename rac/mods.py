"""C12-C19: model images and profiles."""
import copy
import functools
import math
import numpy as np
from scipy import ndimage, signal, special, integrate
from .base import prop, need, close, same, rejects, Broken

from astropy.modeling import models as AM
from petrofit.modeling import models as M
from petrofit.modeling.fitting import model_to_image
from petrofit.modeling.models import PSFConvolvedModel2D


# ------------------------------------------------------------ C12

def gen_c12(rng, i):
    if i % 8 == 7:
        return {"bad": [2.0, 1.5, "2", None][i // 8 % 4], "size": 4, "origin": (0, 0), "factor": 1}
    return {"bad": None, "size": int(rng.integers(1, 17)), "factor": int(rng.integers(1, 12)) if i % 3 else 1,
            "origin": tuple(float(v) if i % 2 else int(round(v)) for v in rng.uniform(-40, 40, 2)), "dflt": i % 9 == 0}


@prop("C12", (300, 3000), "random sizes, origins and factors against the sub-pixel formula; non-integer factors", gen_c12)
def c12(c):
    if c["bad"] is not None or "dflt" not in c:
        rejects(lambda: M.make_grid(c["size"], origin=c["origin"], factor=c["bad"]), "factor %r" % (c["bad"],))
        return
    n, f, o = c["size"], c["factor"], c["origin"]
    if c["dflt"]:
        g = M.make_grid(n)
        f, o = 1, (0, 0)
    else:
        g = M.make_grid(n, origin=o, factor=f)
    need(len(g) == 2, "not an x and a y grid")
    k = np.arange(n * f)
    X, Y = np.meshgrid(o[0] + (k + .5) / f - .5, o[1] + (k + .5) / f - .5)
    close(g[0], X, "x grid", rtol=1e-12, atol=1e-9)
    close(g[1], Y, "y grid", rtol=1e-12, atol=1e-9)


# ------------------------------------------------------------ model images

def submodel(kind, p):
    p = list(p)
    if kind == "gauss":
        return AM.Gaussian2D(p[0], p[1], p[2], p[3], p[4], p[5])
    if kind == "sersic":
        return AM.Sersic2D(p[0], p[3] + 1, p[4], p[1], p[2], .3, p[5])
    if kind == "moffat":
        return AM.Moffat2D(p[0], p[1], p[2], p[3] + 1, 2.5)
    if kind == "hole":
        return M.Nuker2D(p[0], p[3] + 1, p[1], p[2])
    if kind == "plane":
        return AM.Planar2D(p[0] / 10, p[4] / 7, p[3])
    if kind == "comp":
        return AM.Gaussian2D(p[0], p[1], p[2], p[3], p[4], p[5]) + AM.Planar2D(.1, .2, .3)
    raise KeyError(kind)


def make_psf(seed, shape):
    g = np.random.default_rng(seed).random(shape) + .05
    return g / g.sum()


def render(sub, xs, ys, f):
    """sub-model on the sub-pixels of the pixels xs x ys, factor f"""
    o = (np.arange(f) + .5) / f - .5
    X = (np.asarray(xs, float)[:, None] + o[None]).ravel()
    Y = (np.asarray(ys, float)[:, None] + o[None]).ravel()
    XX, YY = np.meshgrid(X, Y)
    return sub(XX, YY)


def binned(a, f):
    h, w = a.shape
    return a.reshape(h // f, f, w // f, f).mean(axis=(1, 3))


def spec_image(sub, x0, y0, n, over, psf, pf, pa, window=None):
    """image on the n x n pixels from (x0, y0): mean of sub-pixels, PSF at PSF resolution, bin to data"""
    pf = pf or 1
    xs, ys = x0 + np.arange(n), y0 + np.arange(n)
    if window is None:
        f = over or 1
        im = binned(render(sub, xs, ys, f), f // pf)
    else:
        im = render(sub, xs, ys, pf)
        wx, wy, size, f = window
        cx, cy = int(np.round(wx)) - size // 2, int(np.round(wy)) - size // 2
        q = f // pf
        for b in range(n):
            for a in range(n):
                if cx <= xs[a] < cx + size and cy <= ys[b] < cy + size:
                    im[b * pf:(b + 1) * pf, a * pf:(a + 1) * pf] = binned(render(sub, [xs[a]], [ys[b]], f), q)
    if psf is not None:
        k = psf if pa == 0 else ndimage.rotate(psf, pa, reshape=False)
        im = signal.convolve2d(im, k, mode="same")
    return binned(im, pf)


def gen_img(rng, i, window):
    pf = [None, None, 1, 2, 3][i % 5]
    psf = None if (pf is None and i % 2) else (tuple(int(v) for v in rng.choice([3, 4, 5, 7], 2)), int(rng.integers(1e6)))
    f = (pf or 1) * int(rng.integers(1, 5))
    over = None if (f == 1 and i % 3 and pf in (None, 1)) else f
    nx, ny = int(rng.integers(4, 13)), int(rng.integers(4, 13))
    if psf is not None and i % 7 == 3:          # an image smaller than the PSF
        nx, ny = int(rng.integers(2, 6)), int(rng.integers(2, 6))
        psf = (tuple(int(v) for v in rng.integers(7, 16, 2)), psf[1])
    x0, y0 = (0, 0) if i % 4 == 0 else tuple(int(v) for v in rng.integers(-9, 20, 2))
    kind = ["gauss", "sersic", "moffat", "comp", "plane"][int(rng.integers(5))]
    par = [float(rng.uniform(1, 20)), x0 + float(rng.uniform(-1, nx + 1)), y0 + float(rng.uniform(-1, ny + 1)), float(rng.uniform(.6, 3)), float(rng.uniform(.8, 3)), float(rng.uniform(-2, 2))]
    win = None
    if psf is None and rng.random() < .15:        # undefined at its centre, which is a pixel centre
        kind, par[1], par[2] = "hole", float(round(par[1])), float(round(par[2]))
    if window:
        names = {"hole": ("x_0", "y_0"), "gauss": ("x_mean", "y_mean"), "sersic": ("x_0", "y_0"), "moffat": ("x_0", "y_0"), "comp": ("x_mean_0", "y_mean_0"), "plane": None}[kind]
        size = int(rng.integers(1, 9))
        how = i % 4
        cx, cy = float(rng.uniform(x0 - 4, x0 + nx + 4)), float(rng.uniform(y0 - 4, y0 + ny + 4))
        if how == 1:
            cx, cy = float(round(cx)) + .5, float(round(cy)) - .5
        if how in (0, 2) and names:
            win = (names[0], names[1] if how == 0 else cy, size, f)
        else:
            win = (cx, cy, size, f)
    mode = ["grid", "list", "holes", "m2i", "call"][i % 5]
    return {"kind": kind, "par": par, "psf": psf, "pf": pf, "over": over, "nx": nx, "ny": ny, "o": (x0, y0), "win": win, "mode": mode,
            "pa": float(rng.choice([0, 0, 30, 90, -47.5, .2, -180])) if psf else 0.0, "moved": window and i % 3 == 0, "seed": int(rng.integers(1e6)), "frac": i % 17 == 9}


def coords(c):
    x0, y0 = c["o"]
    xs, ys = x0 + np.arange(c["nx"]), y0 + np.arange(c["ny"])
    X, Y = np.meshgrid(xs, ys)
    X, Y = X.astype(float), Y.astype(float)
    if c["mode"] in ("list", "holes"):
        X, Y = X.ravel(), Y.ravel()
        if c["mode"] == "holes":
            k = np.random.default_rng(c["seed"]).random(X.size) > .3
            k[0] = k[-1] = True           # keep the corners: they define the pixel range
            X, Y = X[k], Y[k]
    return X, Y


def build(c, **kw):
    sub = submodel(c["kind"], c["par"])
    psf = None if c["psf"] is None else make_psf(c["psf"][1], c["psf"][0])
    m = PSFConvolvedModel2D(sub, psf=psf, oversample=c["win"] if c["win"] is not None else c["over"], psf_oversample=c["pf"] if psf is not None else None, **kw)
    m.psf_pa = c["pa"]
    return sub, psf, m


def image_check(c):
    if c["pf"] is not None and c["psf"] is None:
        return
    sub, psf, m = build(c)
    X, Y = coords(c)
    win = c["win"]
    if c["moved"]:
        # move the source: the named centre must follow
        for nme in ("x_mean", "x_0", "x_mean_0"):
            if nme in m.param_names:
                setattr(m, nme, getattr(m, nme).value + 2.3)
                setattr(sub, nme, getattr(sub, nme).value + 2.3)
    if win is not None:
        win = tuple(getattr(sub, v).value if isinstance(v, str) else v for v in win)
    keep = X.copy(), Y.copy(), None if psf is None else psf.copy()
    if c["mode"] == "m2i":
        got = model_to_image(m, (c["nx"], c["ny"]), center=(c["o"][0] + c["nx"] // 2, c["o"][1] + c["ny"] // 2))
    elif c["mode"] == "call":
        got = m(X, Y)
    else:
        got = m.evaluate(X, Y, *[np.array([v]) for v in m.parameters]) if c["seed"] % 2 else m.evaluate(X, Y, *[float(v) for v in m.parameters])
    n = max(c["nx"], c["ny"])
    full = spec_image(sub, c["o"][0], c["o"][1], n, c["over"], psf, c["pf"], c["pa"], win)
    Xc, Yc = coords(c)
    want = full[(Yc - c["o"][1]).astype(int), (Xc - c["o"][0]).astype(int)]
    close(got, want, "model image", rtol=1e-7, atol=1e-9)
    same(X, keep[0], "x coordinates")
    same(Y, keep[1], "y coordinates")
    if psf is not None:
        same(m.psf, keep[2], "PSF")
    if psf is None and win is None and (c["over"] in (None, 1)):
        close(got, sub(Xc, Yc), "image without PSF and oversampling", rtol=1e-9, atol=1e-12)


@prop("C13", (220, 3000), "random sub-models, PSFs (odd, even, rectangular, rotated, larger than the image), oversample and PSF factors, rectangular ranges and origins, pixel lists; direct sub-pixel sums and 2-D convolution", lambda r, i: gen_img(r, i, False))
def c13(c):
    image_check(c)


@prop("C14", (220, 3000), "random windows (odd/even sizes, centres on half pixels, across edges and outside, named parameters that move) against per-pixel refinement", lambda r, i: gen_img(r, i, True))
def c14(c):
    if c["psf"] is None and c["pf"] is not None:
        c = dict(c, pf=None)
    image_check(c)


# ------------------------------------------------------------ C15

def gen_val15(rng):
    k = rng.integers(0, 18)
    f = int(rng.integers(-1, 9))
    cand = [None, 1, 2, 4, 6, 0, -2, 2.0, "4", (1.5, 2.5, 5, f), [3, 3, 4, f], ("x_0", "y_0", 3, f), (1, 2, 3), (1, 2, 3.5, 4), (1, 2, 3, 4.0), {"__arr__": [1, 2, 3, 4]}, {"__np__": 4}, f]
    return cand[int(k)]


def gen_c15(rng, i):
    ops = []
    for _ in range(int(rng.integers(2, 12))):
        a = "oversample" if rng.random() < .55 else "psf_oversample"
        v = gen_val15(rng) if a == "oversample" else [None, 1, 2, 3, 4, 6, 0, -1, 2.0, "2", (1, 2, 3, 4), int(rng.integers(1, 7)), {"__np__": 2}][int(rng.integers(13))]
        ops.append([a, v])
    return {"psf": i % 4 != 3, "ops": ops, "ctor": bool(i % 2)}


def real_val(v):
    if isinstance(v, dict):
        return np.array(v["__arr__"]) if "__arr__" in v else np.int64(v["__np__"])
    return v


def is_int(v):
    return isinstance(v, int)


def factor_of(o):
    return 1 if o is None else (o[3] if isinstance(o, tuple) else o)


def valid15(o, p, has_psf):
    if o is not None:
        if isinstance(o, tuple):
            if len(o) != 4 or not is_int(o[2]) or not is_int(o[3]) or o[3] <= 0:
                return False
        elif not is_int(o) or o <= 0:
            return False
    if p is not None:
        if not is_int(p) or p <= 0 or not has_psf:
            return False
    return factor_of(o) % (1 if p is None else p) == 0


@prop("C15", (500, 6000), "random sequences of valid and invalid oversample / PSF-factor assignments; invariant and roll-back after each", gen_c15)
def c15(c):
    psf = np.full((3, 3), 1 / 9) if c["psf"] else None
    sub = AM.Sersic2D(1, 2, 1, 3, 4, .1, .2)
    m = None
    ops = list(c["ops"])
    if c["ctor"]:
        kw = {}
        for a, v in ops[:2]:
            kw[a] = real_val(v)
        o, p = kw.get("oversample"), kw.get("psf_oversample")
        on = tuple(o) if isinstance(o, list) else o
        try:
            m = PSFConvolvedModel2D(sub, psf=psf, **kw)
        except Exception:
            ok = not isinstance(o, np.ndarray) and valid15(on, p, psf is not None)
            need(not ok, "valid configuration %r was rejected", kw)
        if m is not None:
            need(valid15(m.oversample, m.psf_oversample, psf is not None), "constructed with %r: oversample=%r, psf_oversample=%r", kw, m.oversample, m.psf_oversample)
    if m is None:
        m = PSFConvolvedModel2D(sub, psf=psf)
    for a, v in ops:
        before = (m.oversample, m.psf_oversample)
        rv = real_val(v)
        nv = tuple(rv) if isinstance(rv, list) else rv
        try:
            setattr(m, a, rv)
            raised = None
        except Exception as e:
            raised = e
        after = (m.oversample, m.psf_oversample)
        if raised is not None:
            need(after == before and type(after[0]) is type(before[0]), "failed assignment %s=%r changed %r to %r", a, rv, before, after)
            if not isinstance(rv, (np.ndarray, np.generic)):
                o, p = (nv, before[1]) if a == "oversample" else (before[0], nv)
                need(not valid15(o, p, psf is not None), "valid assignment %s=%r rejected (%r) in state %r", a, rv, raised, before)
        else:
            need(valid15(after[0], after[1], psf is not None), "after %s=%r: oversample=%r, psf_oversample=%r", a, rv, *after)
            new = after[0] if a == "oversample" else after[1]
            if not isinstance(rv, (np.ndarray, np.generic)):
                need(new == nv, "%s=%r stored as %r", a, rv, new)
            need((after[1] if a == "oversample" else after[0]) == (before[1] if a == "oversample" else before[0]), "%s=%r changed the other factor", a, rv)


# ------------------------------------------------------------ C16

def gen_c16(rng, i):
    ops = []
    for _ in range(int(rng.integers(2, 8))):
        k = str(rng.choice(["eval", "eval", "eval", "over", "par", "clear", "cache", "psfpa", "copy"], p=[.2, .2, .2, .12, .08, .05, .07, .05, .03]))
        if k == "eval":
            n = int(rng.choice([4, 6, 7]))
            ops.append([k, {"o": [int(v) for v in rng.choice([0, 0, 1, 3, -5], 2)], "nx": n, "ny": int(rng.choice([n, n, 4])), "frac": float(rng.choice([0, 0, 0, .25]))}])
        elif k == "over":
            ops.append([k, [None, 1, 2, 3, 4, (3.2, 2.9, 4, 4), (1, 1, 3, 6)][int(rng.integers(7))]])
        elif k == "par":
            ops.append([k, float(rng.uniform(.5, 4))])
        elif k == "cache":
            ops.append([k, bool(rng.random() < .5)])
        elif k == "psfpa":
            ops.append([k, float(rng.choice([0, 35]))])
        else:
            ops.append([k, None])
    return {"ops": ops, "psf": i % 2 == 0, "pf": 2 if i % 4 == 0 and i % 2 == 0 else None, "start": bool(i % 3)}


@prop("C16", (150, 2500), "random histories of evaluations (sizes, shapes, origins, factors), cache switches, parameter and setting changes; every image against a fresh model", gen_c16)
def c16(c):
    par = [9.0, 2.6, 2.2, 1.1, 1.7, .4]
    psf = make_psf(3, (3, 5)) if c["psf"] else None
    psf0 = None if psf is None else psf.copy()

    def fresh(amp, over, pa):
        m = PSFConvolvedModel2D(submodel("gauss", [amp] + par[1:]), psf=None if psf is None else psf0.copy(), oversample=over, psf_oversample=c["pf"])
        m.psf_pa = pa
        m.cache_grid = False
        return m
    over0 = 4 if c["pf"] else None
    st = {"amp": 9.0, "over": over0, "pa": 0.0}
    m = PSFConvolvedModel2D(submodel("gauss", par), psf=psf, oversample=over0, psf_oversample=c["pf"])
    m.cache_grid = c["start"]
    grids = []
    for k, v in c["ops"]:
        if k == "eval":
            X, Y = np.meshgrid(v["o"][0] + v["frac"] + np.arange(v["nx"], dtype=float), v["o"][1] + v["frac"] + np.arange(v["ny"], dtype=float))
            xk, yk = X.copy(), Y.copy()
            got = m(X, Y)
            want = fresh(st["amp"], st["over"], st["pa"])(xk, yk)
            close(got, want, "image after this history", rtol=1e-10, atol=1e-12)
            same(X, xk, "x coordinates")
            same(Y, yk, "y coordinates")
            got += 1.0                        # the caller may reuse the returned image
        elif k == "over":
            f = factor_of(v)
            if f % (c["pf"] or 1) == 0 and not (v is None and c["pf"]):
                m.oversample = v
                st["over"] = v
        elif k == "par":
            m.amplitude = v
            st["amp"] = v
        elif k == "cache":
            m.cache_grid = v
        elif k == "clear":
            m.clear_cached_grid()
        elif k == "psfpa":
            m.psf_pa = v
            st["pa"] = v
        elif k == "copy":
            m = m.copy()
    if psf is not None:
        same(psf, psf0, "PSF")


# ------------------------------------------------------------ C17

SUBS = [lambda: AM.Sersic2D(1., 5., 2., 3., 4., .3, .2), lambda: AM.Gaussian2D(2., 1., 3., 1., 2., .1, fixed={"x_mean": True}),
        lambda: AM.Moffat2D(3., 1., 2., 3., 1.5, bounds={"gamma": (.1, 9.)}),
        lambda: AM.Sersic2D(1., 5., 2., 3., 4., .3, .2, bounds=M.get_default_sersic_bounds({"x_0": (0, 9), "y_0": (-3, 8)})) + AM.Gaussian2D(2., 1., 3., 1., 2., .1, fixed={"theta": True}),
        lambda: M.GenSersic2D(amplitude=1., r_eff=5., n=2., x_0=3., y_0=4., ellip=.3, theta=.2, c_0=.4, bounds=M.get_default_gen_sersic_bounds()),
        lambda: M.CoreSersic2D(amplitude=2., r_eff=5., r_break=1.5), lambda: AM.Const2D(4.)]


def gen_c17(rng, i):
    ops = []
    for _ in range(int(rng.integers(0, 7))):
        k = str(rng.choice(["val", "fixed", "bound", "read", "edit", "fixed_pa", "attrs"]))
        ops.append([k, int(rng.integers(0, 40)), float(np.round(rng.uniform(.2, 3), 3)), bool(rng.random() < .5)])
    return {"sub": i % len(SUBS), "ops": ops, "kw": ["", "fixed", "bounds", "both", "", ""][(i // 7) % 6], "bad": i % 15 == 14}


def pstate(m, names):
    return ([float(getattr(m, n).value) for n in names], [bool(m.fixed[n]) for n in names], [tuple(m.bounds[n]) for n in names])


@prop("C17", (400, 4000), "every sub-model family, random parameter/flag/bound changes and read-backs, keyword overrides, invalid sub-models", gen_c17)
def c17(c):
    if c["bad"]:
        w = PSFConvolvedModel2D(AM.Gaussian2D())
        rejects(lambda: PSFConvolvedModel2D(w), "wrapping a wrapped model")
        rejects(lambda: PSFConvolvedModel2D(AM.Gaussian1D()), "wrapping a one-dimensional model")
        rejects(lambda: PSFConvolvedModel2D(AM.Sersic1D()), "wrapping a one-dimensional model")
        return
    sub = SUBS[c["sub"]]()
    names = list(sub.param_names)
    s0 = pstate(sub, names)
    kw = {}
    if c["kw"] in ("fixed", "both"):
        kw["fixed"] = {names[0]: True}
    if c["kw"] in ("bounds", "both"):
        kw["bounds"] = {names[-1]: (-7., 70.)}
    m = PSFConvolvedModel2D(sub, **kw)
    need(list(m.param_names) == names + ["psf_pa"], "parameters %s", m.param_names)
    st = dict(zip(names, zip(*s0)))
    vals = {n: st[n][0] for n in names}
    vals["psf_pa"] = 0.0
    fixed = {n: (n == names[0]) if "fixed" in kw else st[n][1] for n in names}
    bounds = {n: ((-7., 70.) if n == names[-1] else (None, None)) if "bounds" in kw else st[n][2] for n in names}
    fixed["psf_pa"], bounds["psf_pa"] = False, (None, None)
    allc = names + ["psf_pa"]
    if "bounds" in kw:                     # bounds a parameter itself declares
        for n in names[:-1]:
            bounds[n] = tuple(m.bounds[n])

    def verify(when):
        need(np.array_equal(m.parameters, [vals[n] for n in allc]), "%s: parameters %s, expected %s", when, m.parameters, vals)
        for n in allc:
            need(float(getattr(m, n).value) == vals[n], "%s: %s is %r, expected %r", when, n, getattr(m, n).value, vals[n])
            need(bool(m.fixed[n]) == fixed[n], "%s: fixed[%s] is %r", when, n, m.fixed[n])
            need(tuple(m.bounds[n]) == tuple(bounds[n]), "%s: bounds[%s] is %r, expected %r", when, n, m.bounds[n], bounds[n])
        r = m.model
        need(type(r) is type(sub) and list(r.param_names) == names, "%s: sub-model read back has parameters %s", when, r.param_names)
        need("psf_pa" not in r.fixed and "psf_pa" not in r.bounds, "%s: the sub-model got the PSF angle", when)
        v, f, b = pstate(r, names)
        need(v == [vals[n] for n in names], "%s: sub-model values %s, expected %s", when, v, vals)
        need(f == [fixed[n] for n in names], "%s: sub-model fixed %s, expected %s", when, f, fixed)
        need(b == [tuple(bounds[n]) for n in names], "%s: sub-model bounds %s, expected %s", when, b, bounds)
        need(set(r.fixed) == set(names) and set(r.bounds) == set(names), "%s: sub-model flags for other parameters", when)
        need(pstate(sub, names) == s0, "%s: the original sub-model changed", when)
        return r
    verify("after wrapping")
    held = []
    for k, j, x, b in c["ops"]:
        n = allc[j % len(allc)]
        if k == "val":
            setattr(m, n, x)
            vals[n] = x
        elif k == "attrs":
            p = m.parameters.copy()
            p[j % len(allc)] = x
            m.parameters = p
            vals[n] = x
        elif k == "fixed":
            m.fixed[n] = b
            fixed[n] = b
        elif k == "fixed_pa":
            m.fixed["psf_pa"] = b
            fixed["psf_pa"] = b
        elif k == "bound":
            m.bounds[n] = (None if b else -x, x + 5)
            bounds[n] = (None if b else -x, x + 5)
        elif k == "read":
            held.append(verify("read"))
        elif k == "edit":
            r = m.model
            q = names[j % len(names)]
            setattr(r, q, x + .125)
            r.fixed[q] = not r.fixed[q]
            r.bounds[q] = (-x, 3 * x)
        verify("after %s of %s" % (k, n))


# ------------------------------------------------------------ C18

def gen_c18(rng, i):
    return {"amp": float(10 ** rng.uniform(-2, 3)), "re": float(10 ** rng.uniform(-1, 2)), "n": float(rng.choice([.5, 1, 2, 4, rng.uniform(.3, 8), rng.uniform(.3, 8), rng.uniform(8, 12)])),
            "ellip": float(rng.choice([0, rng.uniform(0, .95)])), "fr": float(rng.uniform(.01, .99)), "x": float(10 ** rng.uniform(-1, .7)), "arr": i % 3 == 0, "deep": i % 4 == 0}


def sersic(r, a, re, n):
    return a * np.exp(-special.gammaincinv(2 * n, .5) * ((r / re) ** (1 / n) - 1))


@prop("C18", (400, 5000), "random amplitude, radius, index, ellipticity: quadrature of the profile, inverses, ratios", gen_c18)
def c18(c):
    a, re, n, e = c["amp"], c["re"], c["n"], c["ellip"]
    r = c["x"] * re
    kw = dict(amplitude=a, r_eff=re, n=n, ellip=e)
    tot = float(M.sersic_enclosed(np.inf, **kw))
    need(float(M.sersic_enclosed(0.0, **kw)) == 0, "enclosed flux at 0 is %r", M.sersic_enclosed(0.0, **kw))
    close(M.sersic_enclosed(re, **kw), tot / 2, "flux within r_eff", rtol=1e-10)
    enc = float(M.sersic_enclosed(r, **kw))
    if c["deep"]:
        q = integrate.quad(lambda t: sersic(t ** n * re, a, re, n) * 2 * np.pi * t ** n * re * (1 - e) * re * n * t ** (n - 1), 0, c["x"] ** (1 / n), epsabs=0, epsrel=1e-10, limit=200)[0]
        close(enc, q, "enclosed flux vs area integral", rtol=1e-6)
    f = c["fr"] * tot
    ri = float(M.sersic_enclosed_inv(f, **kw))
    close(M.sersic_enclosed(ri, **kw), f, "flux within the radius enclosing it", rtol=1e-6)
    if enc < tot * (1 - 1e-6):
        close(M.sersic_enclosed_inv(enc, **kw), r, "radius enclosing the flux within it", rtol=1e-4)
    close(M.sersic_enclosed(r, a, re, n), enc / (1 - e), "default ellipticity is 0", rtol=1e-9)
    I = sersic(r, a, re, n)
    close(M.petrosian_profile(r, re, n), I / (enc / (np.pi * r ** 2 * (1 - e))), "Petrosian profile vs intensity over mean intensity", rtol=1e-9)
    close(AM.Sersic1D(a, re, n)(r), I, "Sersic profile", rtol=1e-9)
    I0 = float(M.Ie_to_I0(a, n))
    close(I0, sersic(0., a, re, n), "central intensity", rtol=1e-9)
    close(M.I0_to_Ie(I0, n), a, "I0_to_Ie(Ie_to_I0)", rtol=1e-9)
    close(M.Ie_to_I0(M.I0_to_Ie(a, n), n), a, "Ie_to_I0(I0_to_Ie)", rtol=1e-9)
    if c["arr"]:
        rr = np.array([.3, 1., 2.5]) * re
        close(M.sersic_enclosed(rr, **kw), [float(M.sersic_enclosed(v, **kw)) for v in rr], "array radii", rtol=1e-9)
        close(M.petrosian_profile(rr, re, n), [float(M.petrosian_profile(v, re, n)) for v in rr], "array radii", rtol=1e-9)
        close(M.sersic_enclosed_model(amplitude=a, r_eff=re, n=n, ellip=e)(rr), M.sersic_enclosed(rr, **kw), "fittable enclosed-flux model", rtol=1e-9)
        close(M.petrosian_model(r_eff=re, n=n)(rr), M.petrosian_profile(rr, re, n), "fittable Petrosian model", rtol=1e-9)
        ff = np.array([.1, .5, .9]) * tot
        close(M.sersic_enclosed(M.sersic_enclosed_inv(ff, **kw), **kw), ff, "array fluxes", rtol=1e-6)


# ------------------------------------------------------------ C19

def gen_c19(rng, i):
    u = rng.uniform
    return {"amp": float(u(.1, 50)), "re": float(u(.5, 20)), "rb": float(u(.2, 6)), "n": float(rng.choice([1, 4, u(.4, 7)])), "x0": float(u(-5, 5)), "y0": float(u(-5, 5)),
            "ellip": float(rng.choice([0, u(0, .9)])), "theta": float(rng.choice([0, u(-4, 4)])), "c0": float(rng.choice([0, 0, u(-.9, 2), 2])), "al": float(u(.5, 9)), "be": float(u(2, 6)), "ga": float(rng.choice([0, u(0, 1.5)])),
            "x": u(-12, 12, 5), "y": u(-12, 12, 5), "axis": i % 4 == 1, "near": float(10 ** u(-8, -3)) if rng.random() < .2 else None}


def ell(c, x, y):
    u = (x - c["x0"]) * np.cos(c["theta"]) + (y - c["y0"]) * np.sin(c["theta"])
    v = -(x - c["x0"]) * np.sin(c["theta"]) + (y - c["y0"]) * np.cos(c["theta"])
    return u, v


@prop("C19", (400, 5000), "random parameters and points against the published formulas; reflections; special cases", gen_c19)
def c19(c):
    x, y = c["x"].copy(), c["y"].copy()
    if c["axis"]:
        x[0], y[1] = c["x0"], c["y0"]
    if c.get("near"):
        x, y = c["x0"] + x * c["near"], c["y0"] + y * c["near"]
    q = 1 - c["ellip"]
    u, v = ell(c, x, y)
    bn = special.gammaincinv(2 * c["n"], .5)
    # generalised Sersic
    k = c["c0"] + 2
    z = (np.abs(u) ** k + np.abs(v / q) ** k) ** (1 / k)
    g = M.GenSersic2D(amplitude=c["amp"], r_eff=c["re"], n=c["n"], x_0=c["x0"], y_0=c["y0"], ellip=c["ellip"], theta=c["theta"], c_0=c["c0"])
    close(g(x, y), c["amp"] * np.exp(-bn * ((z / c["re"]) ** (1 / c["n"]) - 1)), "generalised Sersic", rtol=1e-8, scale=1e-200)
    g0 = M.GenSersic2D(amplitude=c["amp"], r_eff=c["re"], n=c["n"], x_0=c["x0"], y_0=c["y0"], ellip=c["ellip"], theta=c["theta"], c_0=0.)
    close(g0(x, y), AM.Sersic2D(c["amp"], c["re"], c["n"], c["x0"], c["y0"], c["ellip"], c["theta"])(x, y), "generalised Sersic at c_0=0", rtol=1e-8, scale=1e-200)
    # core-Sersic (Graham et al. 2003)
    r = np.sqrt(u ** 2 + (v / q) ** 2)
    a_, n_, ga, rb, re = c["al"], c["n"], c["ga"], c["rb"], c["re"]
    with np.errstate(all="ignore"):
        I = c["amp"] * 2 ** (-ga / a_) * np.exp(bn * (2 ** (1 / a_) * rb / re) ** (1 / n_))
        want = I * (1 + (rb / r) ** a_) ** (ga / a_) * np.exp(-bn * ((r ** a_ + rb ** a_) / re ** a_) ** (1 / (a_ * n_)))
    cs = M.CoreSersic2D(amplitude=c["amp"], r_eff=re, r_break=rb, n=n_, x_0=c["x0"], y_0=c["y0"], alpha=a_, gamma=ga, ellip=c["ellip"], theta=c["theta"])
    close(cs(x, y), want, "core-Sersic", rtol=1e-7, scale=1e-200)
    # Nuker
    rr = np.hypot(x - c["x0"], y - c["y0"]) / rb
    nk = M.Nuker2D(amplitude=c["amp"], r_break=rb, x_0=c["x0"], y_0=c["y0"], alpha=a_, betta=c["be"], gamma=ga)
    close(nk(x, y), c["amp"] * 2 ** ((c["be"] - ga) / a_) * rr ** (-ga) * (1 + rr ** a_) ** ((ga - c["be"]) / a_), "Nuker", rtol=1e-8, scale=1e-200)
    t = np.linspace(0, 6, 4)
    close(nk(c["x0"] + rb * np.cos(t), c["y0"] + rb * np.sin(t)), np.full(4, c["amp"]), "Nuker at the break radius", rtol=1e-8)
    for m, nm in ((g, "generalised Sersic"), (cs, "core-Sersic"), (nk, "Nuker")):
        close(m(2 * c["x0"] - x, 2 * c["y0"] - y), m(x, y), nm + " reflected through the centre", rtol=1e-6, scale=1e-200)


# ------------------------------------------------------------ C34

@functools.lru_cache(None)
def sersic_exact(n):
    """the exact relations of a Sersic profile of index n (radii in effective radii)"""
    from scipy.special import gammainc, gammaincinv, gamma
    from scipy.optimize import brentq
    b = gammaincinv(2 * n, .5)
    enc = lambda r: gammainc(2 * n, b * r ** (1 / n))
    inv = lambda f: (gammaincinv(2 * n, f) / b) ** n
    tot = 2 * math.pi * n * b ** (-2 * n) * gamma(2 * n)
    rp = lambda eta: brentq(lambda r: math.exp(-b * r ** (1 / n)) * math.pi * r * r / (tot * enc(r)) - eta, 1e-4, 1e3, xtol=1e-13, rtol=1e-13)
    r02 = rp(.2)
    t = enc(2 * r02)
    conc = lambda t: 5 * math.log10(inv(.8 * t) / inv(.2 * t))
    return {"n": n, "c2080": conc(1.0), "u2080": conc(t), "p0502": 5 * math.log10(r02 / rp(.5)), "epsilon": inv(.99) / r02}


APPROX = {"u2080_to_c2080": ("u2080", "c2080", .02), "c2080_to_n": ("c2080", "n", .03), "n_to_epsilon": ("n", "epsilon", .01), "p0502_to_epsilon": ("p0502", "epsilon", .025)}


def gen_c34(rng, i):
    f = sorted(APPROX)[i % 4]
    form = ["float", "npfloat", "array", "a2", "int", "ints"][(i // 4) % 6]
    n = float(rng.choice([.5, 1, 4, 10])) if rng.random() < .2 else float(np.exp(rng.uniform(math.log(.5), math.log(10))))
    return {"f": f, "form": form, "n": n, "span": 0.0}


@prop("C34", (48, 480), "Sersic indices 0.5 to 10 as numbers, integers and arrays of one and two dimensions", gen_c34)
def c34(c):
    from petrofit.modeling.models import PetroApprox
    a, v, tol = APPROX[c["f"]]
    g = getattr(PetroApprox, c["f"])
    ns = [c["n"]]
    if c["span"]:
        ns = [min(10.0, max(.5, c["n"] * (1 + c["span"] * k / 8))) for k in range(-8, 9)]
    form = c["form"]
    if form in ("int", "ints") and a != "n":
        form = {"int": "float", "ints": "array"}[form]
    if form == "int":
        ns = [float(max(1, round(n))) for n in ns]
    elif form != "float" and form != "npfloat":
        ns = ns + [float(k) for k in (1, 2, 3, 5, 7, 9)] + ([] if form == "ints" else [.5, .77, 1.4, 3.3, 6.1, 10.0])
        ns = [float(max(1, round(n))) for n in ns] if form == "ints" else ns
        ns = ns[:len(ns) // 2 * 2]
    want = np.array([sersic_exact(n)[v] for n in ns])
    x = np.array([sersic_exact(n)[a] for n in ns])
    if form in ("array", "a2", "ints"):
        x = x.astype(int) if form == "ints" else x
        x, want = (x.reshape(2, -1), want.reshape(2, -1)) if form == "a2" else (x, want)
        x0 = x.copy()
        got = g(x)
        need(np.shape(got) == x.shape, "result of shape %s for an argument of shape %s", np.shape(got), x.shape)
        same(x, x0, "argument")
    else:
        mk = {"float": float, "npfloat": np.float64, "int": int}[form]
        got = np.array([np.asarray(g(mk(t)), float).reshape(()) for t in x])
    bad = ~(np.abs(np.asarray(got, float) - want) <= tol * want)
    if bad.any():
        k = int(np.flatnonzero(bad.ravel())[0])
        need(False, "%s(%r) is %r, the exact value is %r (more than %g off, relative)", c["f"], float(np.ravel(x)[k]), float(np.ravel(got)[k]), float(np.ravel(want)[k]), tol)
