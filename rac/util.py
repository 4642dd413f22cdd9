"""C25-C28, C30: utilities."""
import math
import re
import numpy as np
from .base import prop, need, close, same, rejects, Broken

from scipy.interpolate import interp1d
from astropy import units as u
from astropy.wcs import WCS
from petrofit import utils as U


# ------------------------------------------------------------ C25

def gen_c25(rng, i):
    s = float(10 ** rng.uniform(-6, -2))
    return {"e": float(rng.choice([0, rng.uniform(0, .99)])), "q": float(rng.uniform(1, 30)), "A": float(10 ** rng.uniform(-2, 5)), "arr": i % 3 == 0,
            "scale": s, "rot": float(rng.choice([0, rng.uniform(-3, 3)])), "flip": bool(rng.random() < .7), "ratio": (1.0 if i % 3 else 1 + float(rng.choice([3, -2, 1])) * 2.0 ** -52) if i % 4 else float(rng.choice([1.1, .5, 1.001, 3])),
            "pix": float(10 ** rng.uniform(-1, 3)), "unit": str(rng.choice(["arcsec", "arcmin", "deg", "mas"])), "form": int(rng.integers(3)), "proj": str(rng.choice(["TAN", "SIN"])), "cd": bool(rng.random() < .5)}


def wcs25(c):
    w = WCS(naxis=2)
    w.wcs.crpix = [10.5, 20.0]
    w.wcs.crval = [33.0, -21.0]
    w.wcs.ctype = ["RA---" + c["proj"], "DEC--" + c["proj"]]
    co, si = math.cos(c["rot"]), math.sin(c["rot"])
    R = np.array([[co, -si], [si, co]])
    S = np.diag([(-1 if c["flip"] else 1) * c["scale"], c["scale"] * c["ratio"]])
    if c["cd"]:
        w.wcs.cd = R @ S
    else:
        w.wcs.cdelt = [S[0, 0], S[1, 1]]
        if abs(c["ratio"] - 1) < 1e-12:
            w.wcs.pc = R
    return w


@prop("C25", (400, 4000), "random ellipticities, areas, elongations, WCS (rotation, handedness, CD/PC, unequal scales), units", gen_c25)
def c25(c):
    e, q, A = c["e"], c["q"], c["A"]
    if c["arr"]:
        e, q, A = np.array([e, .3, 0.]), np.array([q, 1.0, 2.]), np.array([A, 1.0, 50.])
    el = U.ellip_to_elong(e)
    close(el, 1 / (1 - np.asarray(e)), "elongation of an ellipticity", rtol=1e-12)
    close(U.elong_to_ellip(el), e, "ellipticity back", rtol=1e-9, atol=1e-12)
    close(U.elong_to_ellip(q), 1 - 1 / np.asarray(q), "ellipticity of an elongation", rtol=1e-9, atol=1e-12)
    close(U.ellip_to_elong(U.elong_to_ellip(q)), q, "elongation back", rtol=1e-9)
    a, b = U.elliptical_area_to_r(A, q)
    close(np.pi * np.asarray(a) * b, A, "area of the ellipse", rtol=1e-10)
    close(np.asarray(a) / b, q, "elongation of the ellipse", rtol=1e-10)
    r = U.circle_area_to_r(A)
    close(np.pi * np.asarray(r) ** 2, A, "area of the circle", rtol=1e-10)
    a1, b1 = U.elliptical_area_to_r(A, 1.0)
    close(a1, r, "circular case", rtol=1e-10)
    close(b1, r, "circular case", rtol=1e-10)
    w = wcs25(c)
    if abs(c["ratio"] - 1) > 1e-12:
        rejects(lambda: U.angular_to_pixel(1 * u.arcsec, w), "unequal pixel scales")
        rejects(lambda: U.pixel_to_angular(3., w), "unequal pixel scales")
        return
    pix = c["pix"]
    given = [pix, pix * u.pix, np.array([pix, 2 * pix])][c["form"]]
    val = np.array([pix, 2 * pix]) if c["form"] == 2 else pix
    ang = U.pixel_to_angular(given, w)
    need(ang.unit.is_equivalent(u.arcsec), "unit %s", ang.unit)
    close(ang.to_value(u.arcsec), val * c["scale"] * 3600, "angular size", rtol=1e-9)
    close(U.angular_to_pixel(ang, w), val, "pixel size back", rtol=1e-9)
    un = u.Unit(c["unit"])
    th = (val * c["scale"] * 3600 * u.arcsec).to(un)
    p = U.angular_to_pixel(th, w)
    need(not hasattr(p, "unit"), "pixel size carries a unit")
    close(p, val, "pixel size of %s" % c["unit"], rtol=1e-9)
    close(U.pixel_to_angular(p, w).to_value(un), th.value, "angular size back", rtol=1e-9)


# ------------------------------------------------------------ C26

def gen_c26(rng, i):
    n = int(rng.integers(4, 20))
    x = np.cumsum(rng.uniform(.1, 4, n)) - (5 if i % 4 == 0 else 0)
    y = rng.normal(2, 3, n)
    if i % 5 == 1:
        y = np.sort(y)
    if i % 5 == 2:
        y = np.round(y)
    if i % 7 == 3:
        y[0] = np.nan
    desc = bool(i % 6 == 5)
    return {"x": x[::-1].copy() if desc else x, "y": y, "kind": [None, "linear", "cubic", "quadratic", "nearest"][i % 5 if i % 7 != 3 else 0], "num": int(rng.integers(2, 60)) if i % 3 else None,
            "value": float(rng.choice([rng.normal(2, 3), np.nan_to_num(y[int(rng.integers(n))]), 50, -50])), "grow": bool(rng.random() < .5), "max": float(10 ** rng.uniform(.1, 3)) if i % 3 else int(rng.integers(2, 99)), "n": int(rng.integers(1, 70)), "lists": i % 9 == 4}


@prop("C26", (400, 5000), "random maxima and counts; random samples on increasing and decreasing abscissae, all kinds; random searches incl. ties, NaN and misses", gen_c26)
def c26(c):
    mx, n = c["max"], c["n"]
    r = U.make_radius_list(mx, n)
    need(isinstance(r, np.ndarray) and r.shape == (n,), "radius list of shape %s, expected %d radii", np.shape(r), n)
    close(r, (np.arange(n) + 1) * mx / n, "radius list", rtol=1e-11)
    if n > 1:
        r = U.make_radius_list(mx, n, log=True)
        need(r.shape == (n,), "logarithmic list has shape %s", r.shape)
        close(r, mx ** (np.arange(n) / (n - 1.0)), "logarithmic radius list", rtol=1e-9)
    x0, y0 = c["x"], c["y"]
    x, y = x0.copy(), y0.copy()
    kw = {} if c["num"] is None else {"num": c["num"]}
    a, b = (x.tolist(), y.tolist()) if c["lists"] else (x, y)
    gx, gy = U.get_interpolated_values(a, b, kind=c["kind"], **kw)
    if c["kind"] is None:
        close(gx, x0, "abscissae without interpolation", rtol=0)
        close(gy, y0, "values without interpolation", rtol=0)
    else:
        num = max(len(x0), 5000 if c["num"] is None else c["num"])
        close(gx, np.linspace(x0.min(), x0.max(), num), "abscissae", rtol=1e-10, atol=1e-12)
        close(gy, interp1d(x0, y0, kind=c["kind"])(gx), "interpolated values", rtol=1e-9, atol=1e-10)
        lo, hi = int(np.argmin(x0)), int(np.argmax(x0))
        close(gy[0], y0[lo], "first value", rtol=1e-7, atol=1e-8)
        close(gy[-1], y0[hi], "last value", rtol=1e-7, atol=1e-8)
    same(x, x0, "abscissae")
    same(y, y0, "values")
    v, g = c["value"], c["grow"]
    hit = [i for i in range(len(y0)) if (y0[i] >= v if g else y0[i] <= v)]
    got = U.closest_value_index(v, y, growing=g) if g or c["n"] % 2 else U.closest_value_index(v, y)
    same(y, y0, "values")
    if not hit:
        need(got is None, "index %r although no sample qualifies", got)
        return
    d = np.abs(y0[: hit[0] + 1] - v)
    need(got is not None, "no index although sample %d qualifies", hit[0])
    if np.isnan(d).any():
        return
    need(int(got) == int(np.argmin(d)), "index %r, expected %d", got, int(np.argmin(d)))


# ------------------------------------------------------------ C27

def gen_c27(rng, i):
    ny, nx = int(rng.integers(3, 14)), int(rng.integers(3, 14))
    dy, dx = int(rng.integers(1, 10)), int(rng.integers(1, 10))
    out = rng.random() < .3
    x = int(rng.integers(-12, nx + 12)) if out else int(rng.integers(0, nx))
    y = int(rng.integers(-12, ny + 12)) if out else int(rng.integers(0, ny))
    kinds = ["ff", "ii", "if", "fi", "f4"]
    k = kinds[i % 5]
    im, tg = rng.normal(9, 4, (ny, nx)), rng.normal(2, 2, (dy, dx))
    if k[0] == "i":
        im = np.round(im).astype(int)
    if k[1] == "i":
        tg = np.round(tg).astype(int)
    if k == "f4":
        im, tg = im.astype(np.float32), tg.astype(np.float32)
    return {"image": im, "target": tg, "x": x, "y": y}


@prop("C27", (600, 8000), "random image and cutout shapes, positions inside, across and beyond every edge, numeric types", gen_c27)
def c27(c):
    im, tg = c["image"].copy(), c["target"].copy()
    got = U.cutout_subtract(im, tg, c["x"], c["y"])
    same(im, c["image"], "image")
    same(tg, c["target"], "target")
    need(got is not im and not np.shares_memory(got, im), "the input image was returned")
    want = c["image"].astype(float)
    dy, dx = tg.shape
    for j in range(dy):
        for i in range(dx):
            Y, X = c["y"] - dy // 2 + j, c["x"] - dx // 2 + i
            if 0 <= Y < im.shape[0] and 0 <= X < im.shape[1]:
                want[Y, X] -= tg[j, i]
    close(got, want, "subtracted image", rtol=1e-5 if im.dtype == np.float32 else 1e-12, atol=1e-5 if im.dtype == np.float32 else 1e-12)


# ------------------------------------------------------------ C28

def gen_c28(rng, i):
    form = ["float", "int", "np", "npint", "array", "iarray", "list", "f4", "a2", "a0"][i % 10]
    v = rng.uniform(-3, 500, (3, 4) if form == "a2" else 6)
    v.flat[0] = 0
    return {"form": form, "v": v, "k": int(rng.integers(6)), "lam": float(10 ** rng.uniform(-22, -17)), "zp": float(rng.uniform(-22, -20)), "piv": float(rng.uniform(2000, 20000))}


@prop("C28", (300, 4000), "scalars and arrays of int, float, numpy types, lists; zero and negative fluxes", gen_c28)
def c28(c):
    v = c["v"]
    f = {"float": lambda: float(v.flat[c["k"]]), "int": lambda: int(v.flat[c["k"]]), "np": lambda: np.float64(v.flat[c["k"]]), "npint": lambda: np.int64(v.flat[c["k"]]),
         "array": lambda: v.copy(), "iarray": lambda: v.astype(int), "list": lambda: v.tolist(), "f4": lambda: v.astype(np.float32), "a2": lambda: v.copy(), "a0": lambda: np.array(v.flat[c["k"]])}[c["form"]]()
    keep = f.copy() if isinstance(f, np.ndarray) else (list(f) if isinstance(f, list) else f)
    hdr = {"PHOTFLAM": c["lam"], "PHOTZPT": c["zp"], "PHOTPLAM": c["piv"]}
    got = U.hst_flux_to_abmag(f, hdr)
    zp = -2.5 * np.log10(c["lam"]) + c["zp"] - 5 * np.log10(c["piv"]) + 18.692
    x = np.asarray(keep, float)
    want = np.where(x > 0, -2.5 * np.log10(np.where(x > 0, x, 1)) + zp, np.nan)
    close(got, want, "AB magnitude", rtol=1e-6 if c["form"] == "f4" else 1e-10)
    if isinstance(f, np.ndarray):
        same(f, keep, "flux array")
    elif isinstance(f, list):
        need(f == keep, "flux list modified")


# ------------------------------------------------------------ C30

def gen_c30(rng, i):
    n = int(rng.integers(0, 12))
    if i % 4 == 3:
        return {"l": [[int(v) for v in rng.integers(-20, 20, n)], [float(v) for v in np.round(rng.normal(0, 9, n), 2)], [int(v) if k % 2 else float(v) + .5 for k, v in enumerate(rng.integers(-9, 9, n))]][i // 4 % 3]}
    if i % 4 == 1:             # long digit runs of near-equal values, leading zeros, one stem
        runs = [str(int(v)) for v in (10 ** rng.uniform(0, 25, n + 1))] + ["9" * int(k) for k in rng.integers(1, 25, 3)] + ["1" + "0" * int(k) for k in rng.integers(1, 25, 3)]
        return {"l": [str(rng.choice(["a", "A", "", "x-"])) + "0" * int(rng.integers(0, 3)) + str(rng.choice(runs)) + str(rng.choice(["", "b", "B9"])) for _ in range(n)]}
    parts = ["a", "B", "b", "A", "img", "IMG", "_", "-", "7", "07", "10", "9", "100", "x2", "x10", "X9", ".fits", "", " ", "é", "²"]
    return {"l": ["".join(rng.choice(parts, int(rng.integers(0, 5)))) for _ in range(n)]}


@prop("C30", (500, 8000), "random strings over letters, digits, punctuation and case, with repeats; lists of numbers", gen_c30)
def c30(c):
    l = list(c["l"])
    got = U.natural_sort(l)
    need(l == c["l"] and all(a is b for a, b in zip(l, c["l"])), "the input list was modified")
    need(isinstance(got, list), "not a list")
    if l and not isinstance(l[0], str):
        want = sorted(l)
    else:
        def key(s):
            out, k = [], 0
            for m in re.finditer("[0-9]+", s):
                out += [s[k:m.start()].lower(), int(m.group())]
                k = m.end()
            return out + [s[k:].lower()]
        idx = list(range(len(l)))
        want = [l[k] for k in sorted(idx, key=lambda k: (key(l[k]), k))]
    need(got == want, "sorted %s, expected %s", got, want)
    for x in ("10", 3):
        pass
