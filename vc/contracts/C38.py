"""Petrosian radii in arcseconds."""
from ..contract import *
from .. import units
from .common import *
from .C25 import UNITS_


@unit("C38.arcsec", variants={"name": ["r_half_light", "r_total_flux"], "cunit": UNITS_, "kind": ["cubic", "linear", None], "equal": [True, False]}, skip=lambda name, cunit, kind, equal: kind != "cubic" and cunit != "deg")
def arcsec(h, name, cunit, kind, equal):
    """the pixel radius times the pixel scale in arcseconds; undefined exactly when the radius is; unequal scales rejected"""
    cls = load_obj(h)
    u = h.loader.mods["astropy.units"]
    h.loader.mods["numpy"].pi
    d = Data(h, "flux")
    s = settings(h, "", kind)
    o, ref = build(h, cls, d, s), build(h, cls, d, s)
    sx, sy = h.real("scale"), h.real("scale2")
    h.assume(And(sx.t > 0, sy.t > 0))
    h.assume(sx.t == sy.t if equal else Or(sy.t > sx.t * z3.Q(1001, 1000), sy.t < sx.t * z3.Q(999, 1000)))
    w = units.FakeWCS((sx, sy), getattr(u, cunit))
    deg = sx * getattr(u, cunit).scale
    r = num(h.result(getattr, ref, name))
    f = getattr(o, name + "_arcsec")
    if not equal and not bool(SBool(r.nan)):
        return h.rejects(f, w)
    out = h.result(f, w)
    h.goal("plain-number", not isinstance(out, units.Quantity))
    if bool(SBool(r.nan)):
        h.goal("undefined-without-radius", num(out).nan)
    else:
        h.ensure_eq("arcsec", num(out), r * deg * num(3600))
    h.unchanged(*d.list)
