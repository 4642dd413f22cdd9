"""Contracts of photutils.isophote and of astropy.coordinates.SkyCoord, over symbolic values."""
import z3
from . import core, arr, units
from .core import SNum, SBool, Unsupported, FALSE, num, T
from .arr import SArr, asarr
from .phot import Opaque
from .shim import use

FITS = []
MATCHES = []
ISO = "building the geometry, the ellipse or fitting an isophote either fails (any exception) or succeeds; the intensity of the fitted isophote depends on the image, the geometry's centre, ellipticity, angle and fixed flags, the semi-major axis and the fit options only (not on the geometry's own semi-major axis); the image is not changed"
SKY = "match_to_catalog_sky gives, for every coordinate, the index of the nearest coordinate of the catalogue, and the separations; the coordinates given are not changed"


class IsophoteError(Exception):
    pass


def may_fail(what):
    c = core.ctx()
    c.iso_n = getattr(c, "iso_n", 0) + 1
    if bool(SBool(z3.Bool("%s_fails_%d" % (what, c.iso_n)))):
        c.iso_failed = what
        raise IsophoteError(what)


class EllipseGeometry(Opaque):
    def __init__(self, x0, y0, sma, eps, pa, astep=0.1, linear_growth=False, fix_center=False, fix_pa=False, fix_eps=False):
        use("photutils.isophote", ISO)
        may_fail("geometry")
        self.x0, self.y0, self.sma, self.eps, self.pa = x0, y0, sma, eps, pa
        self.opts = (astep, linear_growth, fix_center, fix_pa, fix_eps)


class Isophote(Opaque):
    def __init__(self, intens):
        self.intens = intens


class Ellipse(Opaque):
    def __init__(self, image, geometry=None, threshold=0.1):
        may_fail("ellipse")
        self.image, self.geometry = image, geometry

    def fit_isophote(self, sma, **k):
        may_fail("fit")
        c = core.ctx()
        r = SNum(c.fresh_real("intens"), z3.Bool("intens_nan_%d" % c.iso_n), "f")
        FITS.append((self.image, self.geometry, sma, k, r))
        return Isophote(r)


class SkyCoord(Opaque):
    def __init__(self, *a, ra=None, dec=None, unit=None, frame="icrs", **k):
        use("astropy.coordinates.SkyCoord", SKY)
        if a:
            if len(a) != 2 or ra is not None or dec is not None:
                raise Unsupported("coordinates given by position")
            ra, dec = a
        if k or frame != "icrs" or ra is None or dec is None:
            raise Unsupported("options of SkyCoord")
        us = unit if isinstance(unit, (tuple, list)) else (unit, unit)
        self.lon, self.lat = [self.degrees(v, u) for v, u in zip((ra, dec), us)]

    @staticmethod
    def degrees(v, u):
        d = units.NAMES["deg"]
        if isinstance(u, str):
            if u not in units.NAMES:
                raise Unsupported("unit %r" % u)
            u = units.NAMES[u]
        if isinstance(v, units.Quantity):
            return v.to(d).value
        if u is None:
            raise units.UnitConversionError("no unit")
        return units.Quantity(v, u).to(d).value

    def match_to_catalog_sky(self, catalogcoord, nthneighbor=1):
        r = (Opaque(), Opaque(), Opaque())
        MATCHES.append((self, catalogcoord, nthneighbor, r))
        return r


def install(m):
    i = m["photutils.isophote"]
    i.EllipseGeometry, i.Ellipse = EllipseGeometry, Ellipse
    m["astropy.coordinates"].SkyCoord = SkyCoord
    return m
