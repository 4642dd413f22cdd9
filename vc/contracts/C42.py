"""Isophote intensity at a radius."""
from ..contract import *
from .. import arr, fits, phot, sky
from .common import *

SIZES = [{"ny": 2, "nx": 3}]


def geometry(h, form="real"):
    mk = h.int if form == "int" else h.real
    g = [mk("x0"), mk("y0"), h.real("ellip"), h.real("theta")]
    return g


@unit("C42.amplitude", sizes=SIZES, variants={"box": ["array", "ccd", "cutout"], "r": ["real", "int"], "k": ["f", "i"]})
def amplitude(h, box, r, k):
    """the intensity of the isophote fitted to the image with that geometry; not a number when any step fails; never an exception; the image is not changed"""
    sky.FITS.clear()
    f = h.load().module("petrofit.segmentation").get_amplitude_at_r
    a = h.array("image", (h.dim("ny", 1), h.dim("nx", 1)), k, nan=k == "f")
    img = {"ccd": fits.CCDData, "cutout": phot.Cutout2D}.get(box, lambda x: x)(a)
    R = h.real("r") if r == "real" else h.int("r")
    x, y, el, th = geometry(h, r)
    h.assume(R.t > 0)
    h.case = lambda ev: ev.d(n=1.0, re=10.0, amp=20.0, ellip=.3, theta=.7, x=43.2, y=36.7, r=12 if r == "int" else 12.347, form=box, bad="")
    out = h.result(f, R, img, x, y, el, th)
    if getattr(h.c, "iso_failed", None) or not sky.FITS:
        if not getattr(h.c, "iso_failed", None):
            raise Unsupported("no isophote is fitted")
        h.goal("undefined-without-isophote", num(out).nan)
        return h.unchanged(a)
    if len(sky.FITS) != 1:
        raise Unsupported("%d isophotes" % len(sky.FITS))
    im, g, sma, opts, intens = sky.FITS[0]
    if opts or g is None or g.opts != (0.1, False, False, False, False):
        raise Unsupported("fit options")
    if isinstance(im, (fits.CCDData, phot.Cutout2D)):
        return h.fail("image", "the container instead of the image is fitted")
    h.ensure_array("image", arr.asarr(im), a._shape, lambda *i: a.get(*i))
    for n, v, w in (("x", g.x0, x), ("y", g.y0, y), ("ellipticity", g.eps, el), ("angle", g.pa, th), ("radius", sma, R)):
        h.ensure_eq(n, v, w)
    h.ensure_eq("intensity", out, intens)
    h.unchanged(a)
