"""C22-C24: correction grids."""
import contextlib
import copy
import io
import warnings
import numpy as np
from scipy import special
from scipy.interpolate import interp1d
from .base import prop, need, close, same, rejects, Broken
from .mods import spec_image, make_psf

from astropy.modeling import models as AM
from astropy.table import Table, QTable
from photutils.aperture import CircularAperture
from petrofit.petrosian import Petrosian, PetrosianCorrection, generate_petrosian_sersic_correction
from petrofit.petrosian import core as K
from petrofit.petrosian import correction as C_
from petrofit.modeling import models as M

COLS = ["n", "r_eff", "p02", "p03", "p04", "p05", "u_r_50", "u_c2080", "c_r_50", "c_r_80", "c_r_99", "c_epsilon", "u_epsilon", "c_r_20"]


def petro(c, **kw):
    r = np.arange(1, c["len"] + 1) * c["dr"]
    L = M.sersic_enclosed(r, 100.0, c["re"], c["n"])
    a = dict(kw)
    for k in ("eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "interp_kind"):
        if c.get(k) is not None:
            a[k] = c[k]
    if c.get("err"):
        a["flux_err"] = np.sqrt(L) + .1
    return Petrosian(r, np.pi * r ** 2, L, **a)


def gen_p(rng):
    re = float(rng.uniform(3, 12))
    n = float(rng.choice([.5, 1, 1.5, 2]))
    dr = float(rng.choice([.5, 1., 1.3]))
    return {"re": re, "n": n, "dr": dr, "len": int(re * (4 if n < 1 else 7 if n < 2 else 12) / dr) + 4, "eta": None, "epsilon": None, "epsilon_fraction": None, "total_flux_fraction": None, "interp_kind": None, "err": bool(rng.random() < .3)}


def gen_c22(rng, i):
    k = int(rng.integers(2, 14))
    c = {"p": gen_p(rng), "rel": np.round(rng.normal(0, 1, (k, 3)), 4), "scale": np.round(10 ** rng.uniform(-2, .3, 3), 4), "enforce": [True, False, None][i % 3], "vals": rng.uniform(1, 50, (k, len(COLS))),
         "side": str(rng.choice(["in", "in", "out"])), "axis": int(rng.integers(3)), "bad": None, "ntie": bool(rng.random() < .2), "toggle": bool(rng.random() < .3), "q": bool(rng.random() < .1), "edge": int(rng.choice([0, 0, 0, 0, 1, -1])),
         "tie": float(rng.choice([1e-3, -1e-3, 1e-5])) if i % 2 else 0}
    if i % 25 == 24:
        c["bad"] = ["str", "list", "dict", "array", "none"][i // 25 % 5]
    if rng.random() < .3:
        c["p"]["epsilon"] = float(rng.choice([1.5, 2.5]))
    if i % 6 == 1:         # the concentration, or everything, may be undefined
        c["p"]["epsilon_fraction"] = float(rng.choice([.5, .8]))
        c["p"]["len"] = int(c["p"]["len"] * rng.choice([.3, .6, 1.]))
        c["enforce"] = [True, None, False][i // 6 % 3]
    return c


@prop("C22", (200, 2500), "random grids around the measurements of real objects, ranges including or excluding them; non-tables", gen_c22)
def c22(c):
    if c["bad"]:
        g = {"str": "grid.csv", "list": [[1, 2]], "dict": {"p02": [1.]}, "array": np.ones((3, 3)), "none": None}[c["bad"]]
        rejects(lambda: PetrosianCorrection(g), "a %s as grid" % c["bad"])
        return
    p = petro(c["p"])
    m = np.array([K.calculate_petrosian_r(p.r_list, p.petrosian_list, eta=.2)[0], p.r_half_light, p.c2080], float)
    undefined = np.isnan(m)
    if undefined.any() and c["enforce"] is False:
        return
    rel = c["rel"].copy()
    ax = c["axis"]
    if c["side"] == "out":
        rel[:, ax] = np.abs(rel[:, ax]) + .05
        if c["ntie"]:
            rel[:, ax] *= -1
    elif len(rel) >= 2:
        rel[0] = np.abs(rel[0]) + .01
        rel[1] = -np.abs(rel[1]) - .01
        if c.get("edge") and len(rel) > 2:      # a measurement at the very end of the grid's range
            rel[:, ax] = c["edge"] * (np.abs(rel[:, ax]) + .05)
            rel[2, ax] = 0
    m0 = np.where(undefined, 3.0, m)
    pts = m0[None] + rel * c["scale"][None] * np.maximum(1, np.abs(m0))[None]
    if c.get("tie") and len(pts) > 1:       # the two nearest rows at almost the same distance
        for _ in range(30):
            sd = pts.std(axis=0)
            if np.any(sd == 0):
                return
            d = np.sqrt((((pts - m0) / sd) ** 2).sum(axis=1))
            a, b = np.argsort(d, kind="stable")[:2] if _ == 0 else (a, b)
            if not d[a] > 0:
                break
            pts[a] = m0 + (pts[a] - m0) * d[b] / d[a] * (1 - c["tie"])
    sd = pts.std(axis=0)
    if np.any(sd == 0):
        return
    cols = {k: c["vals"][:, j] for j, k in enumerate(COLS)}
    cols["n"] = np.arange(len(rel)) + .5
    cols["p02"], cols["u_r_50"], cols["u_c2080"] = pts.T.copy()
    grid = (QTable if c["q"] else Table)(cols)
    keep = grid.copy()
    pc = PetrosianCorrection(grid) if c["enforce"] is None else PetrosianCorrection(grid, enforce_range=(not c["enforce"]) if c["toggle"] else c["enforce"])
    if c["toggle"]:
        pc.enforce_range = c["enforce"] is not False
    enforce = c["enforce"] is not False
    inside = all(pts[:, j].min() <= m[j] <= pts[:, j].max() for j in range(3))
    par = copy.deepcopy({k: v for k, v in p.__dict__.items()})
    d = (((pts - m) / sd) ** 2).sum(axis=1)
    if enforce and not inside:
        rejects(lambda: pc.estimate_n(p), "a measurement outside the grid")
        rejects(lambda: pc.estimate_epsilon(p), "a measurement outside the grid")
        rejects(lambda: pc.correct(p), "a measurement outside the grid")
    else:
        n = pc.estimate_n(p)
        k = int(round(float(n) - .5))
        need(0 <= k < len(d) and d[k] <= d.min() * (1 + 1e-7) + 1e-12, "row %s at distance %s, the nearest is row %d at %s", k, np.sqrt(d[k]) if 0 <= k < len(d) else None, d.argmin(), np.sqrt(d.min()))
    need(grid.colnames == keep.colnames and len(grid) == len(keep), "grid layout changed")
    for k in keep.colnames:
        same(np.asarray(grid[k]), np.asarray(keep[k]), "grid column " + k)
    for k, v in par.items():
        if isinstance(v, np.ndarray):
            same(p.__dict__[k], v, "data of the object")


ETAS, FRS = {.2: "p02", .3: "p03", .4: "p04", .5: "p05"}, {.5: "c_r_50", .8: "c_r_80", .99: "c_r_99"}


def gen_c23(rng, i):
    c = gen_c22(rng, 4)
    c["p"]["eta"] = [.2, .3, .4, .5][i % 4]
    c["p"]["epsilon_fraction"] = [.5, .8, .99][i // 4 % 3]
    if i % 7 == 6:
        c["p"]["eta"] = float(rng.choice([.25, .1, .35, .45, .21]))
    elif i % 7 == 5:
        c["p"]["epsilon_fraction"] = float(rng.choice([.9, .2, 1., .98, .79]))
    if rng.random() < .4:
        c["p"]["epsilon"] = float(rng.choice([1.3, 2.5]))
    if rng.random() < .3:
        c["p"]["total_flux_fraction"] = .95
    if rng.random() < .3:
        c["p"]["interp_kind"] = "linear"
    return c


@prop("C23", (200, 2500), "random grids; every eta and epsilon fraction pair, and unsupported values; copies compared attribute by attribute", gen_c23)
def c23(c):
    p = petro(c["p"])
    alt = [K.calculate_petrosian_r(p.r_list, p.petrosian_list, eta=.2, **kw)[0] for kw in ({}, {"interp_kind": p.interp_kind, "interp_num": p.interp_num})]
    ms = [np.array([v, p.r_half_light, p.c2080], float) for v in alt]
    m = ms[0]
    if np.isnan(m).any():
        return
    pts = m[None] + c["rel"] * c["scale"][None] * np.maximum(1, np.abs(m))[None]
    if c.get("tie") and len(pts) > 1:       # the two nearest rows at almost the same distance
        for _ in range(30):
            sd = pts.std(axis=0)
            if np.any(sd == 0):
                return
            d = np.sqrt((((pts - m0) / sd) ** 2).sum(axis=1))
            a, b = np.argsort(d, kind="stable")[:2] if _ == 0 else (a, b)
            if not d[a] > 0:
                break
            pts[a] = m0 + (pts[a] - m0) * d[b] / d[a] * (1 - c["tie"])
    sd = pts.std(axis=0)
    if np.any(sd == 0):
        return
    cols = {k: c["vals"][:, j] for j, k in enumerate(COLS)}
    cols["n"] = np.arange(len(pts)) + .5
    cols["p02"], cols["u_r_50"], cols["u_c2080"] = pts.T.copy()
    grid = Table(cols)
    keep = grid.copy()
    pc = PetrosianCorrection(grid, enforce_range=False)
    before = copy.deepcopy(p.__dict__)
    eta, fr = p.eta, p.epsilon_fraction
    try:
        if eta not in ETAS or fr not in FRS:
            rejects(lambda: pc.estimate_epsilon(p), "eta %r, epsilon fraction %r" % (eta, fr))
            rejects(lambda: pc.correct(p), "eta %r, epsilon fraction %r" % (eta, fr))
            return
        e = float(pc.estimate_epsilon(p))
        ok = []
        for v in ms:
            d = (((pts - v) / sd) ** 2).sum(axis=1)
            ok += [cols[FRS[fr]][k] / cols[ETAS[eta]][k] for k in np.where(d <= d.min() * (1 + 1e-7) + 1e-12)[0]]
        need(any(abs(e - w) <= 1e-10 * abs(w) for w in ok), "epsilon %r, expected %r (eta %r, fraction %r)", e, ok, eta, fr)
        q = pc.correct(p)
        need(type(q) is type(p) and q is not p, "correct returned %r", q)
        need(float(q.epsilon) == e, "corrected copy has epsilon %r, estimate %r", q.epsilon, e)
        for k in ("eta", "epsilon_fraction", "total_flux_fraction", "interp_kind", "interp_num"):
            need(getattr(q, k) == getattr(p, k), "the copy differs in %s", k)
        for k in ("r_list", "area_list", "flux_list", "area_err", "flux_err", "petrosian_list", "petrosian_err"):
            a, b = getattr(q, k), before.get("_" + k, before.get(k))
            if b is None:
                need(a is None, "the copy differs in %s", k)
            else:
                same(a, b, "copied " + k)
        need(np.array_equal(q.r_petrosian, p.r_petrosian), "the copy has another Petrosian radius")
    finally:
        for k, v in before.items():
            w = p.__dict__.get(k)
            if isinstance(v, np.ndarray):
                same(w, v, "original's " + k)
            else:
                need(w == v, "original's %s changed", k)
        for k in keep.colnames:
            same(np.asarray(grid[k]), np.asarray(keep[k]), "grid column " + k)


# ------------------------------------------------------------ C24

def gen_c24(rng, i):
    over, pf, psf = [(1, None, None), (2, None, None), (("x_0", "y_0", 10, 5), None, None), (2, 1, 5), (4, 2, 5), (("x_0", "y_0", 8, 4), 2, 3), (("x_0", "y_0", 7, 4), None, 3)][i % 7]
    k = 1 + (i % 3 == 0)
    ns = [float(v) for v in rng.choice([.5, 1., 1.5, .8, 1.123457], k, replace=False)]
    if i % 3 == 0:
        ns[0] = round(float(rng.uniform(.95, 1.6)), 6)
    if i % 7 in (1, 3):
        ns = [float(rng.choice([2., 2.1, 2.6]))]
    rs = [float(v) for v in rng.choice([3.5, 4., 5.5, 6., 7.2], 1 + (i % 2 == 0), replace=False)]
    if min(ns) < 1:
        rs = [r + 5 for r in rs]
    if rng.random() < .3:
        rs = [int(r) for r in rs]
    return {"n": ns, "r": rs, "over": over, "pf": pf, "psf": psf, "seed": int(rng.integers(1e6)), "arr": bool(rng.random() < .5), "one": bool(rng.random() < .5)}


def sersic_total(n, r):
    amp, bn = 100 / np.exp(special.gammaincinv(2 * n, .5)), special.gammaincinv(2 * n, .5)
    return amp, bn, 2 * np.pi * n * amp * r ** 2 * np.exp(bn) * bn ** (-2 * n) * special.gamma(2 * n)


def measured(c, psf, n, r):
    """radii, curve of growth and areas of a rendered galaxy, from the definition"""
    amp, bn, _ = sersic_total(n, r)
    r99 = (special.gammaincinv(2 * n, .99) / bn) ** n * r
    mx = r99 * (50 if r < 7 and n < 1 else 3 if n < 2 else 1.3)
    rr = np.arange(1, 201, 2).tolist() + list(range(300, int(mx) + 100, 100)) if mx >= 200 else list(range(1, int(mx) + 2, 2))
    size = 2 * max(rr)
    x0 = size // 2
    sub = AM.Sersic2D(amp, r, n, x0, x0, 0, 0)
    win, over = None, c["over"]
    if isinstance(over, tuple):
        win, over = (x0, x0, over[2], over[3]), None
    im = spec_image(sub, 0, 0, size, over, psf, c["pf"], 0, win)
    L = np.array([float(CircularAperture((x0, x0), q).do_photometry(im, method="exact")[0][0]) for q in rr])
    A = np.array([float(CircularAperture((x0, x0), q).do_photometry(np.ones_like(im), method="exact")[0][0]) for q in rr])
    return np.array(rr), L, A


@prop("C24", (7, 70), "small grids over indices and radii with plain, oversampled, windowed and PSF-convolved sampling, recomputed from the definition", gen_c24)
def c24(c):
    psf = None if c["psf"] is None else make_psf(c["seed"], (c["psf"], c["psf"]))
    psf0 = None if psf is None else psf.copy()
    nl, rl = (np.array(c["n"]), np.array(c["r"])) if c["arr"] else (list(c["n"]), list(c["r"]))
    kw = {"n_cpu": 1} if c["one"] else {}
    pairs = [(n, r) for n in c["n"] for r in c["r"]]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            g = generate_petrosian_sersic_correction(None, psf=psf, r_eff_list=rl, n_list=nl, oversample=c["over"], psf_oversample=c["pf"], **kw)
    except ValueError as e:     # no row exists when a measured curve stays below the analytic flux
        for n, r in pairs:
            amp, bn, tot = sersic_total(n, r)
            _, L, _ = measured(c, psf0, n, r)
            if max(L) < .99 * tot * (1 + 1e-4):
                return
        raise Broken("generation raised %s" % e)
    need(isinstance(g, Table) and len(g) == len(pairs), "%d rows for %d parameter pairs", len(g), len(pairs))
    for row, (n, r) in zip(g, pairs):
        need(float(row["n"]) == n and float(row["r_eff"]) == r, "row n=%r r_eff=%r, expected n=%r r_eff=%r", row["n"], row["r_eff"], n, r)
        amp, bn, tot = sersic_total(n, r)
        close(row["sersic_L_inf"], tot, "total Sersic flux", rtol=1e-8)

        def rad(f):
            return (special.gammaincinv(2 * n, f) / bn) ** n * r
        for col, f in (("sersic_r_20", .2 * .99), ("sersic_r_80", .8 * .99), ("sersic_r_99", .99)):
            close(row[col], rad(f), col, rtol=1e-7)
        R = lambda k: float(row[k])
        close(R("p0502"), 5 * np.log10(R("p02") / R("p05")), "p0502", rtol=1e-9, atol=1e-12)
        close(R("p0302"), 5 * np.log10(R("p02") / R("p03")), "p0302", rtol=1e-9, atol=1e-12)
        close(R("u_epsilon_50"), R("u_r_50") / R("p02"), "u_epsilon_50", rtol=1e-9)
        close(R("u_epsilon_80"), R("u_r_80") / R("p02"), "u_epsilon_80", rtol=1e-9)
        close(R("c_epsilon_50"), R("c_r_50") / R("p02"), "c_epsilon_50", rtol=1e-9)
        close(R("u_c2080"), 5 * np.log10(R("u_r_80") / R("u_r_20")), "u_c2080", rtol=1e-9)
        close(R("c_c2080"), 5 * np.log10(R("c_r_80") / R("c_r_20")), "c_c2080", rtol=1e-9)
        # measured curve of growth, recomputed
        rr, L, A = measured(c, psf0, n, r)
        p = Petrosian(rr, A, L)
        tol = dict(rtol=2e-3)
        for col, eta in (("p02", .2), ("p03", .3), ("p04", .4), ("p05", .5)):
            close(R(col), Petrosian(rr, A, L, eta=eta).r_petrosian, col, **tol)
        need(R("u_epsilon") == p.epsilon, "u_epsilon %r", R("u_epsilon"))
        for col, f in (("u_r_50", .5), ("u_r_20", .2), ("u_r_80", .8), ("u_r_99", .99)):
            close(R(col), p.fraction_flux_to_r(f), col, **tol)
        close(R("u_c5090"), p.c5090, "u_c5090", **tol)
        _, ix = np.unique(L, return_index=True)
        cog = interp1d(L[ix], rr[ix])
        close(R("c_epsilon") * R("p02"), float(cog(.99 * tot)), "c_epsilon times the Petrosian radius", rtol=1e-5)
        close(R("c_epsilon_80") * R("p02"), float(cog(.8 * .99 * tot)), "c_epsilon_80 times the Petrosian radius", rtol=1e-5)
        q = Petrosian(rr, A, L, epsilon=R("c_epsilon"))
        for col, f in (("c_r_50", .5), ("c_r_20", .2), ("c_r_80", .8), ("c_r_99", .99)):
            close(R(col), q.fraction_flux_to_r(f), col, **tol)
        close(R("c_c5090"), q.c5090, "c_c5090", **tol)
    if psf is not None:
        same(psf, psf0, "PSF")
    written(c)


def written(c):
    """the file a grid is written to"""
    import os
    import tempfile
    if not hasattr(C_, "_generate_petrosian_correction"):
        return
    real, C_._generate_petrosian_correction = C_._generate_petrosian_correction, quick_row
    try:
        with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            def made(f, n, **kw):
                g = generate_petrosian_sersic_correction(f, n_list=n, r_eff_list=[3., 4.5], **kw)
                need(len(g) == 2 * len(n), "%d rows written to %s", len(g), f)
                return g

            def read(f, g, fmt, what):
                need(os.path.exists(f), "%s: no file", what)
                b = Table.read(f, format=fmt)
                need(list(b.colnames) == list(g.colnames) and len(b) == len(g), "%s: other rows or columns in the file", what)
                for k in g.colnames:
                    close(np.asarray(b[k], float), np.asarray(g[k], float), "%s: column %s of the file" % (what, k), rtol=1e-12)
            g = generate_petrosian_sersic_correction(None)
            dn, dr = .5 + .5 * np.arange(9), 10 + 5. * np.arange(19)
            need(len(g) == 171, "%d rows without lists", len(g))
            close(np.asarray(g["n"], float), np.repeat(dn, 19), "indices of the grid without lists", rtol=1e-12)
            close(np.asarray(g["r_eff"], float), np.tile(dr, 9), "radii of the grid without lists", rtol=1e-12)
            made(None, [1.])
            need(not os.listdir(d) and not os.path.exists("None"), "a file without a name")
            for name, fmt, kw in (("a.ecsv", "ascii.ecsv", {}), ("b.dat", "fits", {"out_format": "fits"}), ("c.txt", "ascii.csv", {"out_format": "ascii.csv", "n_cpu": 1})):
                f = os.path.join(d, name)
                g = made(f, [1., 2.], **kw)
                read(f, g, fmt, name)
                made(f, [1., 2., 3.], **kw)
                read(f, g, fmt, "existing " + name)
                read(f, made(f, [1.5], overwrite=True, **kw), fmt, "replaced " + name)
                need(len(os.listdir(d)) == 1, "files %s", os.listdir(d))
                os.remove(f)
            made(os.path.join(d, "missing", "a.ecsv"), [1., 2.])
            need(not os.listdir(d), "files %s", os.listdir(d))
    finally:
        C_._generate_petrosian_correction = real


# ------------------------------------------------------------ C35

def gen_c35(rng, i):
    over, pf, psf = [(1, None, None), (2, 1, 5), (("x_0", "y_0", 8, 4), None, 3)][i % 3]
    rs = [float(v) for v in rng.permutation([3., 3.4, 4., 4.5])[:2 + i % 2]]
    ns = [float(v) for v in rng.permutation([1., 1.3, 1.7, 1.123457])[:2 + (i // 2) % 2]]
    rs, ns = (sorted(rs, reverse=True), ns) if i % 2 == 0 else (rs, sorted(ns, reverse=True))
    return {"n": ns, "r": [int(r) for r in rs] if i % 4 == 3 and len({int(r) for r in rs}) == len(rs) else rs, "over": over, "pf": pf, "psf": psf, "seed": int(rng.integers(1e6)), "cpu": int(rng.choice([2, 3, 5])), "arr": i % 2 == 0, "big": i % 3 != 2}


def quick_row(args):
    r, n = float(args[0]), float(args[1])
    return [n, r] + [np.sin(k * r) + n * k for k in range(28)]


quick_row.__module__, quick_row.__name__, quick_row.__qualname__ = "petrofit.petrosian.correction", "_generate_petrosian_correction", "_generate_petrosian_correction"


@prop("C35", (3, 18), "small grids with and without PSF and oversampling on one and on several processes; large grids with the row computation replaced by a short one", gen_c35)
def c35(c):
    import petrofit.petrosian.correction as M
    psf = None if c["psf"] is None else make_psf(c["seed"], (c["psf"], c["psf"]))
    keep = None if psf is None else psf.copy()
    nl, rl = (np.array(c["n"]), np.array(c["r"])) if c["arr"] else (list(c["n"]), list(c["r"]))

    def run(n, r, **kw):
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return generate_petrosian_sersic_correction(None, psf=psf, n_list=n, r_eff_list=r, oversample=c["over"], psf_oversample=c["pf"], **kw)

    def equal(a, b, what):
        need(list(a.colnames) == list(b.colnames), "%s: columns %s and %s", what, a.colnames, b.colnames)
        need(len(a) == len(b), "%s: %d rows on one process, %d on several", what, len(a), len(b))
        for n in a.colnames:
            close(np.asarray(b[n], float), np.asarray(a[n], float), "%s: column %s" % (what, n), rtol=1e-12)
    if c["big"] and hasattr(M, "_generate_petrosian_correction"):
        real, M._generate_petrosian_correction = M._generate_petrosian_correction, quick_row
        try:
            n, r = [.5 + k / 8 for k in range(17)], [10. + k for k in range(31)]
            equal(run(n, r), run(n, r, n_cpu=c["cpu"]), "527 pairs")
            n, r = n[3::-1] + n[9:5:-1], r[12:5:-1] + r[:3]
            equal(run(n, r), run(n, r, n_cpu=2), "%d pairs" % (len(n) * len(r)))
        finally:
            M._generate_petrosian_correction = real
    equal(run(nl, rl), run(nl, rl, n_cpu=c["cpu"]), "%d processes" % c["cpu"])
    if psf is not None:
        same(psf, keep, "PSF")
    need(list(nl) == c["n"] and list(rl) == c["r"], "the lists were modified")


# ------------------------------------------------------------ C37

def gen_c37(rng, i):
    k = int(rng.integers(1, 25))
    vals = rng.uniform(1, 50, (k, len(COLS)))
    for j in rng.choice(len(COLS), 6, replace=False):
        vals[:, j] = rng.choice([.5, 1., 1.5, 2.5, 1 / 3, -2.], k)
    col = int(rng.integers(len(COLS)))
    v = float(vals[int(rng.integers(k)), col]) if rng.random() < .8 else 77.7
    if i % 3 == 1:      # values that are almost, not exactly, the requested one
        for j in range(k):
            if vals[j, col] != v and rng.random() < .5:
                vals[j, col] = v * (1 + float(rng.choice([1e-3, 1e-6, -1e-6, 1e-9, -1e-13]))) + float(rng.choice([0, 1e-9]))
    return {"vals": vals, "ints": bool(rng.random() < .2), "key": col, "value": v, "fmt": [None, "ascii.ecsv", "fits", "ascii.csv"][i % 4], "q": bool(rng.random() < .2), "p": gen_p(rng), "nan": bool(rng.random() < .15)}


@prop("C37", (120, 1200), "random grids with repeated, missing and undefined values; every row of the answer against the definition; grids written and read in several formats", gen_c37)
def c37(c):
    import os
    import tempfile
    vals = c["vals"].copy()
    if c["nan"]:
        vals[0, c["key"]] = np.nan
    t = Table({n: vals[:, j] for j, n in enumerate(COLS)})
    if c["ints"]:
        t["n"] = np.round(vals[:, 0]).astype(int)
    if c["q"]:
        t = QTable(t)
    keep = t.copy()
    pc = PetrosianCorrection(t)

    def intact(what):
        need(pc.grid.colnames == keep.colnames and len(pc.grid) == len(keep), "%s changed the grid", what)
        for n in keep.colnames:
            same(np.asarray(pc.grid[n]), np.asarray(keep[n]), "%s: column %s of the grid" % (what, n))
    key, val = COLS[c["key"]], c["value"]
    need(list(pc.grid_keys) == list(COLS), "grid keys %s", list(pc.grid_keys))
    un = pc.unique_grid_values(key)
    col = np.asarray(keep[key])
    need(isinstance(un, np.ndarray), "unique values of type %s", type(un))
    close(un, np.array(sorted(set(col[~np.isnan(col)])) + [np.nan] * bool(np.isnan(col).any())), "unique values", rtol=0)
    got = pc.filter_grid(key, val)
    rows = [i for i in range(len(keep)) if col[i] == val]
    need(list(got.colnames) == list(COLS) and len(got) == len(rows), "%d rows match, %d returned", len(rows), len(got))
    for n in COLS:
        close(np.asarray(got[n]), np.asarray(keep[n])[rows], "column %s of the matching rows" % n, rtol=0)
    intact("a query")
    if len(got):
        got[key][0] = -99.
        intact("a change of the returned rows")
    un[0] = -99.
    intact("a change of the returned values")
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = os.path.join(d, "grid" + {None: ".ecsv", "ascii.ecsv": ".txt", "fits": ".dat", "ascii.csv": ".txt"}[c["fmt"]])
        fk = {} if c["fmt"] is None else {"file_format": c["fmt"]}
        pc.write(f, **fk)
        intact("writing")
        back = PetrosianCorrection.read(f, **fk)
        need(isinstance(back, PetrosianCorrection) and list(back.grid_keys) == list(COLS) and len(back.grid) == len(keep), "the grid read back has other rows or columns")
        for n in COLS:
            close(np.ma.filled(np.ma.asarray(back.grid[n], dtype=float), np.nan), np.asarray(keep[n], float), "column %s read back" % n, rtol=1e-15)
        if not c["nan"] and len(keep) > 1:
            p = petro(c["p"])
            pc.enforce_range = back.enforce_range = False
            try:
                a = pc.estimate_n(p), pc.estimate_epsilon(p)
            except Exception:
                a = None
            if a is not None:
                close(np.array([back.estimate_n(p), back.estimate_epsilon(p)], float), np.array(a, float), "estimates from the grid read back", rtol=1e-12)
    intact("estimating")
