"""Catalogue matching."""
from ..contract import *
from .. import sky, units
from .common import *

SIZES = [{"n": 2, "m": 3}]


@unit("C43.match", sizes=SIZES, variants={"u": ["default", "deg", "rad", "object"], "form": ["array", "number"]})
def match(h, u, form):
    """every source of the first catalogue is matched against the second, both in the given unit, for its nearest neighbour"""
    sky.MATCHES.clear()
    f = h.load().module("petrofit.utils").match_catalogs
    U = h.loader.mods["astropy.units"]
    n, m = h.dim("n", 1), h.dim("m", 1)
    mk = lambda name, s: h.array(name, (s,)) if form == "array" else h.real(name)
    r1, d1, r2, d2 = mk("ra1", n), mk("dec1", n), h.array("ra2", (m,)), h.array("dec2", (m,))
    un = U.rad if u in ("rad", "object") else U.deg
    if form == "array":
        h.case = lambda ev: ev.d(a=[{"__nd__": [10.0, 359.9, 0.2], "dtype": "float64", "shape": [3]}, {"__nd__": [1.0, 0.2, 0.1], "dtype": "float64", "shape": [3]}],
                                 b=[{"__nd__": [0.1, 11.0, 359.95, 10.0], "dtype": "float64", "shape": [4]}, {"__nd__": [0.0, 1.0, -0.3, 0.5], "dtype": "float64", "shape": [4]}], unit={"default": None, "object": "rad"}.get(u, u))
    out = h.result(f, r1, d1, r2, d2, **({} if u == "default" else {"unit": un if u == "object" else u}))
    got = [x for x in sky.MATCHES if x[3] is out]
    if len(got) != 1:
        raise Unsupported("the result of something else than one match")
    c1, c2, k, _ = got[0]
    h.ensure_eq("nearest", k, num(1))
    for name, g, w in (("first.ra", c1.lon, r1), ("first.dec", c1.lat, d1), ("second.ra", c2.lon, r2), ("second.dec", c2.lat, d2)):
        if isinstance(w, SNum):
            h.ensure_eq(name, g, w * un.scale)
        else:
            h.ensure_array(name, g, w._shape, lambda *i, w=w: w.get(*i) * un.scale)
    for v in (r1, d1, r2, d2):
        if not isinstance(v, SNum):
            h.unchanged(v)
