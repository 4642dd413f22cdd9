"""C08-C11: photometry and segmentation."""
import copy
import io
import contextlib
import numpy as np
from .base import prop, need, close, same, rejects, Broken

from astropy.nddata import CCDData
from astropy.stats import sigma_clip, sigma_clipped_stats
from photutils.aperture import EllipticalAperture
from photutils.segmentation import SegmentationImage, SourceCatalog, detect_sources, deblend_sources
from petrofit.photometry import radial_photometry
from petrofit import segmentation as S
from matplotlib import pyplot as plt


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return fn(*a, **k)
        finally:
            plt.close("all")


def weights(shape, pos, r, elong, theta, method):
    w = EllipticalAperture(pos, r, r / elong, theta=theta).to_mask(method=method).to_image(shape)
    return np.zeros(shape) if w is None else w


def spec_radial(image, pos, rs, error, mask, elong, theta, method="exact"):
    shape = image.shape
    m = np.ones(shape, bool) if mask is None else np.asarray(mask, bool)
    fl, ar, er = [], [], []
    for r in rs:
        w = weights(shape, pos, r, elong, theta, method)
        good = m & (w > 0)
        fl.append(np.sum(np.asarray(image, float)[good] * w[good]))
        ar.append(np.sum(w[good]))
        er.append(np.nan if error is None else np.sqrt(np.sum(np.asarray(error, float)[good] ** 2 * w[good])))
    return np.array(fl), np.array(ar), np.array(er)


def close6(got, want, what):
    got = np.asarray(got, float)
    need(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    need(np.array_equal(np.isnan(got), np.isnan(want)), "%s: %s, expected %s", what, got, want)
    ok = np.isnan(want) | (np.abs(got - want) <= 1.01e-6 + 1e-9 * np.abs(want))
    need(np.all(ok), "%s: %s, expected %s", what, got, want)
    g = got[~np.isnan(got) & (np.abs(got) < 1e6)]
    need(np.all(np.abs(g * 1e6 - np.round(g * 1e6)) < 1e-3), "%s is not rounded to six decimals: %s", what, got)


def gen_c08(rng, i):
    ny, nx = int(rng.integers(7, 26)), int(rng.integers(7, 26))
    im = rng.normal(3, 2, (ny, nx)) * (1 if i % 6 else 1e-2)
    if i % 5 == 2:
        im = np.round(im * 3).astype(int)
    mask = rng.random((ny, nx)) > 0.2 if i % 2 else None
    err = np.abs(rng.normal(0.4, .2, (ny, nx))) if i % 3 else None
    k = int(rng.integers(1, 6))
    rs = rng.uniform(0.4, 16, k) if i % 4 else np.arange(1, 1 + k)
    if i % 4 == 1:
        rs = np.concatenate([rs, rs[:1]])
    pos = (float(rng.uniform(0, nx)), float(rng.uniform(0, ny)))
    if i % 9 == 4:
        pos = (float(-rng.uniform(1, 6)), float(ny + rng.uniform(1, 4)))
    nan = 0
    if i % 7 == 3 and im.dtype.kind == "f":
        nan = 1 if mask is not None else 2
        yy, xx = int(rng.integers(0, ny)), int(rng.integers(0, nx))
        im[yy, xx] = np.nan
        if nan == 1:
            mask[yy, xx] = False
    return {"im": im, "mask": mask, "err": err, "rs": rs, "pos": pos, "elong": float(rng.choice([1, rng.uniform(1, 4), rng.uniform(1, 4), rng.uniform(.3, 1)])),
            "theta": float(rng.choice([0, rng.uniform(-6, 6)])), "as": ["list", "array", "tuple"][i % 3], "plot": i % 40 == 5, "nan": nan,
            "dflt": i % 10 == 0, "method": ["exact", "exact", "exact", "center"][i % 4]}


@prop("C08", (350, 4000), "random images, masks, error maps, ellipses on and off the image, radii in any order, against the weighted pixel sum", gen_c08)
def c08(c):
    im, mask, err = c["im"].copy(), None if c["mask"] is None else c["mask"].copy(), None if c["err"] is None else c["err"].copy()
    rs = c["rs"].copy() if c["as"] == "array" else (list if c["as"] == "list" else tuple)(c["rs"].tolist())
    rs0 = copy.deepcopy(rs)
    el, th, me = (1.0, 0.0, "exact") if c["dflt"] else (c["elong"], c["theta"], c["method"])
    kw = {} if c["dflt"] else dict(elong=el, theta=th, method=me)
    if err is not None:
        kw["error"] = err
    if mask is not None:
        kw["mask"] = mask
    F, A, E = spec_radial(c["im"], c["pos"], c["rs"], c["err"], c["mask"], el, th, me)
    off = any(EllipticalAperture(c["pos"], r, r / el, theta=th).to_mask(method=me).to_image(im.shape) is None for r in c["rs"])
    if np.any(np.isnan(F)) or off:      # an ellipse wholly off the image has no flux (NaN)
        rejects(lambda: radial_photometry(im, c["pos"], rs, **kw), "NaN flux")
        return
    got = quiet(radial_photometry, im, c["pos"], rs, plot=c["plot"], **kw)
    need(len(got) == 3, "returns %d values", len(got))
    close6(got[0], F, "fluxes")
    close6(got[1], A, "areas")
    close6(got[2], E, "errors")
    same(im, c["im"], "image")
    if mask is not None:
        same(mask, c["mask"], "mask")
    if err is not None:
        same(err, c["err"], "error")
    need(np.array_equal(np.asarray(rs), np.asarray(rs0)), "radii modified")


# ------------------------------------------------------------ C09

def scene(rng, ny, nx, k, noise=0.02, gap=7):
    """image with k separated sources, its segmentation"""
    yy, xx = np.mgrid[:ny, :nx]
    im = rng.normal(0, noise, (ny, nx)) + rng.uniform(-.2, .2) + xx * rng.uniform(-.01, .01) + yy * rng.uniform(-.01, .01)
    seg = np.zeros((ny, nx), int)
    labels = rng.permutation(np.arange(1, k + 1))
    for j in range(k):
        for _ in range(60):
            x0, y0 = rng.integers(2, nx - 2), rng.integers(2, ny - 2)
            b = (np.abs(xx - x0) <= 3) & (np.abs(yy - y0) <= 3)
            if not np.any(seg[b]):
                break
        else:
            continue
        q, t = rng.uniform(.5, .9), rng.uniform(0, 3)
        u = (xx - x0) * np.cos(t) + (yy - y0) * np.sin(t)
        v = -(xx - x0) * np.sin(t) + (yy - y0) * np.cos(t)
        d = np.sqrt(u ** 2 + (v / q) ** 2)
        im = im + rng.uniform(4, 9) * np.exp(-d ** 2 / 2.2) * (d < 5)
        seg[(d < 2.6) & (seg == 0)] = labels[j]
    return im, seg


def gen_c09(rng, i):
    ny, nx = int(rng.integers(18, 40)), int(rng.integers(18, 40))
    im, seg = scene(rng, ny, nx, int(rng.integers(1, 5)))
    if np.sum(seg > 0) < 12:
        return None
    k = int(rng.integers(1, 6))
    return {"im": im, "seg": seg, "which": int(rng.integers(0, 50)), "rs": rng.permutation(np.sort(rng.uniform(1, 9, k)) if i % 2 else np.arange(1, 2 + k)) if i % 5 == 4 else np.sort(rng.uniform(1, 9, k)) if i % 2 else np.arange(1, 2 + k),
            "err": np.abs(rng.normal(.1, .03, (ny, nx))) if i % 3 else None, "cut": [None, None, int(rng.integers(8, 31)), float(rng.integers(8, 31)) + .4][i % 4],
            "bg": i % 2 == 1, "sigma": float(rng.uniform(1.5, 4)), "stype": ["clip", "bound", "Clip"][i % 3], "mbg": i % 5 == 2, "row": i % 4 == 3,
            "plot": i % 50 == 7, "method": "exact" if i % 6 else "center", "ccd": i % 7 == 2, "bright": i % 4 == 1, "defaults": bool(rng.random() < .15)}


@prop("C09", (160, 1500), "random scenes with several sources, edges, error maps, cutout sizes and background options, against cutout + plane fit + weighted sums", gen_c09)
def c09(c):
    im0 = c["im"].copy()
    rng = np.random.default_rng(int(abs(im0[0, 0]) * 1e9))
    if c["bright"]:                       # outliers in the background
        b = np.argwhere(c["seg"] == 0)
        for y, x in b[rng.choice(len(b), min(6, len(b)), replace=False)]:
            im0[y, x] += 6
    seg = SegmentationImage(c["seg"].copy())
    cat = SourceCatalog(np.where(np.isnan(im0), 0, im0), seg)
    src = cat[c["which"] % len(cat)]
    image = CCDData(im0.copy(), unit="adu") if c["ccd"] else im0.copy()
    err = None if c["err"] is None else c["err"].copy()
    rs = c["rs"].copy()
    stype, sigma = ("clip", 3.0) if c.get("defaults") else (c["stype"], c["sigma"])
    px, py = int(src.maxval_xindex), int(src.maxval_yindex)
    elong, theta = float(src.elongation.value), float(np.deg2rad(src.orientation.value))
    lab = int(src.label)
    # cutout
    n = int(np.ceil(max(c["rs"]) * 3)) if c["cut"] is None else int(c["cut"])
    n += n % 2
    ys, xs = np.arange(py - n // 2, py + n // 2), np.arange(px - n // 2, px + n // 2)
    ny, nx = im0.shape
    iy, ix = np.meshgrid(ys, xs, indexing="ij")
    inside = (iy >= 0) & (iy < ny) & (ix >= 0) & (ix < nx)

    def cut(a):
        out = np.full((n, n), np.nan)
        out[inside] = np.asarray(a, float)[iy[inside], ix[inside]]
        return out
    keep = (c["seg"] == lab) | ((c["seg"] == 0) & (not c["mbg"]))
    data = cut(np.where(keep, im0, np.nan))
    stats = cut(np.where(c["seg"] == 0, im0, np.nan))
    alts = [data]
    if c["bg"] and np.sum(~np.isnan(stats)) > 10:
        if stype.lower() == "clip":
            fit = sigma_clip(stats, sigma)
            good = ~np.ma.getmaskarray(fit) & ~np.isnan(stats)
        else:
            m = sigma_clipped_stats(stats, sigma=3, mask=np.isnan(stats))[0]
            good = ~np.isnan(stats) & ~(stats > m + sigma) & ~(stats < m - sigma)
        gy, gx = np.nonzero(good)
        M = np.stack([gx, gy, np.ones(len(gx))], 1)
        co = np.linalg.lstsq(M, stats[good], rcond=None)[0]
        jy, jx = np.mgrid[:n, :n]
        plane = co[0] * jx + co[1] * jy + co[2]
        data = data - plane
        alts = [data]
        if stype.lower() == "bound":
            alts.append(np.clip(data, -sigma, np.inf))
    kw = dict(error=err, bg_sub=c["bg"], sigma=sigma, sigma_type=stype, method=c["method"], mask_background=c["mbg"], plot=c["plot"])
    if c.get("defaults"):
        kw = {k: v for k, v in kw.items() if k not in ("sigma", "sigma_type") and not (k in ("plot", "mask_background", "bg_sub") and v is False) and not (k == "method" and v == "exact")}
    if c["cut"] is not None:
        kw["cutout_size"] = c["cut"]
    got = quiet(S.source_photometry, src, image, seg, rs, **kw)
    fails = []
    for d in alts:
        m = ~np.isnan(d)
        e = None if err is None else cut(c["err"])
        F, A, E = spec_radial(np.where(m, d, 0), (n / 2, n / 2), c["rs"], e, m, elong, theta, c["method"])
        try:
            tol = 2e-5 if c["bg"] else 1.1e-6
            for g, w, name in zip(got, (F, A, E), ("fluxes", "areas", "errors")):
                g = np.asarray(g, float)
                need(g.shape == w.shape and np.array_equal(np.isnan(g), np.isnan(w)), "%s: %s, expected %s", name, g, w)
                need(np.all(np.isnan(w) | (np.abs(g - w) <= tol + 1e-8 * np.abs(w))), "%s: %s, expected %s", name, g, w)
            fails = []
            break
        except Broken as b:
            fails.append(str(b))
    if fails:
        raise Broken(fails[0])
    same(np.asarray(image.data) if c["ccd"] else image, im0, "image")
    if err is not None:
        same(err, c["err"], "error map")
    same(seg.data, c["seg"], "segmentation")
    same(rs, c["rs"], "radii")


# ------------------------------------------------------------ C10

def gen_c10(rng, i):
    ny, nx = int(rng.integers(4, 14)), int(rng.integers(4, 14))
    nl = int(rng.integers(1, 6))
    seg = rng.integers(0, nl + 1, (ny, nx))
    seg[0, 0], seg[0, 1] = 0, nl
    if i % 6 == 5:
        seg = seg * 3
    labs = np.unique(seg)
    kind = ["int", "npint", "list", "cat", "catlist", "bad", "zero", "absent"][i % 8]
    k = int(rng.integers(1, 4))
    return {"seg": seg, "kind": kind, "pick": [int(v) for v in rng.choice(labs, k)], "mbg": bool(i % 3 == 0), "im": rng.normal(0, 1, (ny, nx)),
            "fill": [None, 0.0, -5.5, None][i % 4], "ccd": i % 5 == 1, "bad": i % 4, "dtype": ["float64", "float32"][i % 2]}


@prop("C10", (500, 5000), "random label maps and every kind of source argument against label membership", gen_c10)
def c10(c):
    seg = SegmentationImage(c["seg"].copy())
    im = c["im"].astype(c["dtype"])
    pos = [l for l in c["pick"] if l > 0] or [int(seg.labels[0])]
    cat = None
    if c["kind"] in ("cat", "catlist"):
        cat = SourceCatalog(c["im"], seg)
        ent = {int(l): cat[j] for j, l in enumerate(seg.labels)}
    if c["kind"] == "bad":
        bad = ["1", 1.5, (1, 2), {1}][c["bad"]]
        rejects(lambda: S.segm_mask(bad, seg), "source argument %r" % (bad,))
        rejects(lambda: S.masked_segm_image(bad, im.copy(), seg), "source argument %r" % (bad,))
        return
    if c["kind"] == "int":
        src, want = c["pick"][0], [c["pick"][0]]
    elif c["kind"] == "npint":
        src, want = np.int64(c["pick"][0]), [c["pick"][0]]
    elif c["kind"] == "zero":
        src, want = 0, [0]
    elif c["kind"] == "absent":
        src, want = 99, [99]
    elif c["kind"] == "list":
        src, want = list(c["pick"]), c["pick"]
    elif c["kind"] == "cat":
        src, want = ent[pos[0]], [pos[0]]
    else:
        src, want = [ent[pos[0]]] + list(c["pick"]), pos[:1] + c["pick"]
    keep = list(src) if isinstance(src, list) else None
    w = np.isin(c["seg"], want)
    if not c["mbg"]:
        w = w | (c["seg"] == 0)
    got = S.segm_mask(src, seg, mask_background=c["mbg"])
    need(np.shape(got) == w.shape and np.asarray(got).dtype == bool and np.array_equal(got, w), "mask of %r: %s, expected %s", c["kind"], got, w)
    if not c["mbg"]:
        need(np.array_equal(S.segm_mask(src, seg), w), "mask with default background option")
    fill = np.nan if c["fill"] is None else c["fill"]
    arg = CCDData(im.copy(), unit="adu") if c["ccd"] else im.copy()
    kw = {} if c["fill"] is None else {"fill": c["fill"]}
    r = S.masked_segm_image(src, arg, seg, mask_background=c["mbg"], **kw)
    rd = r.data if c["ccd"] else r
    need(np.array_equal(np.asarray(rd), np.where(w, im, np.asarray(fill, im.dtype)), equal_nan=True), "masked image %s", rd)
    same(np.asarray(arg.data) if c["ccd"] else arg, im, "image")
    same(seg.data, c["seg"], "segmentation")
    if keep is not None:
        need(len(keep) == len(src) and all(a is b or a == b for a, b in zip(keep, src)), "the list of sources was modified: %s", src)


# ------------------------------------------------------------ C11

def gen_c11(rng, i):
    ny, nx = int(rng.integers(24, 44)), int(rng.integers(24, 44))
    im, seg = scene(rng, ny, nx, int(rng.integers(2, 6)))
    return {"im": im, "seg": seg, "deblend": i % 2 == 0, "npix": int(rng.integers(3, 9)), "thr": float(rng.uniform(.6, 1.5)), "nlev": int(rng.choice([8, 16, 30])),
            "con": float(rng.choice([0.001, 0.05, .4, 1.0])), "key": str(rng.choice(["area", "maxval_xindex", "elongation", "kron_flux", "label"])),
            "rev": bool(i % 3), "ccd": i % 4 == 1, "plot": i % 25 == 3, "blend": i % 3 != 2, "tharr": i % 5 == 3, "defaults": bool(rng.random() < .25), "wcs": bool(rng.random() < .25)}


@prop("C11", (60, 500), "random scenes: catalogue against direct detection/deblending with the same parameters; orders; entry against table row", gen_c11)
def c11(c):
    im = c["im"].copy()
    if c["blend"]:
        im = np.maximum(im, np.roll(im, (2, 3), (0, 1)) * .8)
    thr = np.full(im.shape, c["thr"]) if c["tharr"] else c["thr"]
    seg = detect_sources(im, thr, npixels=c["npix"])
    if seg is None:
        return
    arg = CCDData(im.copy(), unit="adu") if c["ccd"] else im.copy()
    kw = dict(npixels=c["npix"], nlevels=c["nlev"], contrast=c["con"])
    if c.get("defaults"):
        c = dict(c, deblend=True, nlev=30, con=0.001)
        kw = dict(npixels=c["npix"])
    else:
        kw["deblend"] = c["deblend"]
    wcs = None
    if c.get("wcs"):
        from astropy.wcs import WCS
        wcs = kw["wcs"] = WCS(naxis=2)
        wcs.wcs.ctype, wcs.wcs.cdelt, wcs.wcs.crval, wcs.wcs.crpix = ["RA---TAN", "DEC--TAN"], [-1e-4, 1e-4], [30., 12.], [10., 12.]
    cat, s, sd = quiet(S.make_catalog, arg, thr, plot=c["plot"], **kw)
    if wcs is not None:
        sky = SourceCatalog(im, sd if c["deblend"] else s, wcs=wcs).sky_centroid
        need(cat.sky_centroid is not None and np.all(cat.sky_centroid.separation(sky).deg < 1e-9), "sky positions of the catalogue")
    else:
        need(cat.wcs is None, "a world system out of nowhere")
    need(np.array_equal(s.data, seg.data), "segmentation differs from detection at the threshold")
    same(np.asarray(arg.data) if c["ccd"] else arg, im, "image")
    want = seg
    if c["deblend"]:
        want = deblend_sources(im, seg, npixels=c["npix"], nlevels=c["nlev"], contrast=c["con"], progress_bar=False)
        need(sd is not None and np.array_equal(sd.data, want.data), "deblended segmentation differs from deblending with the given parameters")
    else:
        need(sd is None, "a deblended segmentation without deblending")
    ref = SourceCatalog(im, want)
    need(len(cat) == len(ref), "catalogue has %d sources, expected %d", len(cat), len(ref))
    for k in ("label", "area", "xcentroid", "segment_flux", "maxval_xindex"):
        a, b = np.atleast_1d(getattr(cat, k)), np.atleast_1d(getattr(ref, k))
        close(np.asarray(getattr(a, "value", a), float), np.asarray(getattr(b, "value", b), float), "catalogue %s" % k)
    need(np.array_equal(S.make_segments(im, npixels=c["npix"], threshold=c["thr"]).data, detect_sources(im, c["thr"], npixels=c["npix"]).data), "make_segments")
    d = S.deblend_segments(im, seg, npixels=c["npix"], nlevels=c["nlev"], contrast=c["con"])
    need(np.array_equal(d.data, deblend_sources(im, seg, npixels=c["npix"], nlevels=c["nlev"], contrast=c["con"], progress_bar=False).data), "deblend_segments")
    # order
    if len(cat) > 1:
        key = c["key"]
        try:
            col = np.asarray(getattr(cat.to_table()[key], "value", cat.to_table()[key]), float)
        except KeyError:
            key = "area"
            col = np.asarray(cat.to_table()[key].value, float)
        if not np.any(np.isnan(col)):
            o = [int(v) for v in (S.order_cat(cat, key=key, reverse=c["rev"]))]
            need(sorted(o) == list(range(len(cat))), "order %s is not a permutation", o)
            v = col[o]
            need(np.all(np.diff(v) <= 0) if c["rev"] else np.all(np.diff(v) >= 0), "order %s does not sort %s", o, col)
            a = np.asarray(cat.to_table()["area"].value, float)
            need(np.all(np.diff(a[[int(v) for v in S.order_cat(cat)]]) <= 0), "default order is not by decreasing area")
        t = cat.to_table()
        for j in range(min(3, len(cat))):
            e, row = cat[j], t[j]
            for f in (S.get_source_elong, S.get_source_ellip, S.get_source_theta):
                x = f(row) if not (f is S.get_source_elong and "elongation" not in t.colnames) and not (f is S.get_source_ellip and "ellipticity" not in t.colnames) else None
                if x is not None:
                    close(float(getattr(x, "value", x)), float(f(e)), f.__name__, rtol=1e-9)
            t2 = cat.to_table(columns=["label", "maxval_xindex", "maxval_yindex", "elongation", "ellipticity", "orientation"])
            row = t2[j]
            val = lambda x: float(getattr(x, "value", x))
            need([int(v) for v in S.get_source_position(e)] == [int(cat.maxval_xindex[j]), int(cat.maxval_yindex[j])], "position of entry")
            need([int(v) for v in S.get_source_position(row)] == [int(cat.maxval_xindex[j]), int(cat.maxval_yindex[j])], "position of row")
            for s_ in (e, row):
                close(val(S.get_source_elong(s_)), float(cat.elongation[j].value), "elongation", rtol=1e-9)
                close(val(S.get_source_ellip(s_)), float(cat.ellipticity[j].value), "ellipticity", rtol=1e-9)
                close(val(S.get_source_theta(s_)), float(np.deg2rad(cat.orientation[j].value)), "orientation", rtol=1e-9)
            if len(cat) and j == 0:
                th = S.get_source_theta(e)
                need(abs(float(getattr(th, "value", th))) <= 2 * np.pi, "orientation not in radians")
