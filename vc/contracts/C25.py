"""Ellipticity / elongation, area / radius and pixel / angle conversions."""
from ..contract import *
from .. import units
from .common import *

U = "petrofit.utils"
FORMS = ["float", "npfloat", "array", "a2"]
BASE = {"e": 0.5, "q": 2.0, "A": 10.0, "arr": False, "scale": 1e-4, "rot": 0.0, "flip": False, "ratio": 1.0, "pix": 3.0, "unit": "arcsec", "form": 0, "proj": "TAN", "cd": False}


def case(h, **kw):
    h.case = lambda ev: ev.d(**dict(BASE, **{k: ev.num(v) for k, v in kw.items()}))


def inp(h, name, form, pre):
    """a number or array whose elements satisfy `pre`; (value, get(*i), shape)"""
    if form in ("float", "npfloat"):
        x = h.real(name, np=form != "float")
        h.assume(pre(x))
        return x, (lambda *i: x), ()
    shape = (h.dim("n", 1),) * (2 if form == "a2" else 1)
    a = h.array(name, shape)
    h.forall(shape, lambda *i: pre(num(a.get(*i))))
    return a, a.get, shape


def same(h, name, got, shape, want):
    if shape == ():
        return h.ensure_eq(name, got, want())
    return h.ensure_array(name, got, shape, want)


def frame(h, *xs):
    h.unchanged(*[x for x in xs if isinstance(x, SArr)])


SIZES = [{"n": 2}]


@unit("C25.ellipticity", sizes=SIZES, variants={"form": FORMS})
def ellip(h, form):
    """ellip_to_elong is a/b of that ellipticity, and elong_to_ellip takes it back"""
    M = h.load().module(U)
    e, at, sh = inp(h, "e", form, lambda x: And(x.t >= 0, x.t < 1))
    if form == "float":
        case(h, e=e)
    q = h.result(M.ellip_to_elong, e)
    same(h, "definition", q, sh, lambda *i: num(1) / (num(1) - num(at(*i))))
    back = h.result(M.elong_to_ellip, q)
    same(h, "inverse", back, sh, lambda *i: num(at(*i)))
    frame(h, e)


@unit("C25.elongation", sizes=SIZES, variants={"form": FORMS})
def elong(h, form):
    """elong_to_ellip is 1 - b/a, and ellip_to_elong takes it back"""
    M = h.load().module(U)
    q, at, sh = inp(h, "q", form, lambda x: x.t >= 1)
    if form == "float":
        case(h, q=q)
    e = h.result(M.elong_to_ellip, q)
    same(h, "definition", e, sh, lambda *i: num(1) - num(1) / num(at(*i)))
    back = h.result(M.ellip_to_elong, e)
    same(h, "inverse", back, sh, lambda *i: num(at(*i)))
    frame(h, q)


@unit("C25.area", sizes=SIZES, variants={"form": FORMS})
def area(h, form):
    """the radii have that area and elongation; with elongation 1 both are the circle's radius"""
    M = h.load().module(U)
    np_ = h.loader.mods["numpy"]
    A, at, sh = inp(h, "A", form, lambda x: x.t > 0)
    q, qt, _ = inp(h, "q", form, lambda x: x.t >= 1)
    if form == "float":
        case(h, q=q, A=A)
    pi = np_.pi
    ab = h.result(M.elliptical_area_to_r, A, q)
    h.goal("two-radii", isinstance(ab, (tuple, list)) and len(ab) == 2)
    a, b = ab
    g = lambda x: (lambda *i: num(x.get(*i))) if isinstance(x, SArr) else (lambda *i: num(x))
    same(h, "area", a * b, sh, lambda *i: num(at(*i)) / pi)
    for i in (h.index(sh) if sh else [()]):
        h.goal("elongation", g(a)(*i).t == (g(b)(*i) * num(qt(*i))).t)
        h.goal("positive", And(g(a)(*i).t > 0, g(b)(*i).t > 0, Not(g(a)(*i).nan), Not(g(b)(*i).nan)))
    r = h.result(M.circle_area_to_r, A)
    same(h, "circle", r * r, sh, lambda *i: num(at(*i)) / pi)
    one = h.result(M.elliptical_area_to_r, A, num(1.0))
    for i in (h.index(sh) if sh else [()]):
        h.goal("circular-case", And(g(one[0])(*i).t == g(r)(*i).t, g(one[1])(*i).t == g(r)(*i).t, g(r)(*i).t > 0))
    frame(h, A, q)


UNITS_ = ["deg", "arcmin", "arcsec", "mas", "rad"]


def wcs(h, un, equal):
    u = h.loader.mods["astropy.units"]
    h.loader.mods["numpy"].pi          # bounds on pi
    s, t = h.real("scale"), h.real("scale2")
    h.assume(And(s.t > 0, t.t > 0))
    h.assume(s.t == t.t if equal else Or(t.t > s.t * z3.Q(1001, 1000), t.t < s.t * z3.Q(999, 1000)))
    return u, units.FakeWCS((s, t), getattr(u, un)), s * getattr(u, un).scale


@unit("C25.scale", sizes=SIZES, variants={"form": ["float", "array"], "cunit": ["deg", "arcsec"], "unit": UNITS_, "given": ["number", "pix"]})
def scale(h, form, cunit, unit, given):
    """pixel sizes convert to angles by the pixel scale, and angles in any unit back"""
    M = h.load().module(U)
    u, w, deg = wcs(h, cunit, True)
    uu = getattr(u, unit)
    p, at, sh = inp(h, "pix", form, lambda x: x.t > 0)
    if form == "float":
        h.case = lambda ev: ev.d(**dict(BASE, pix=ev.num(p), scale=ev.num(deg), form=0 if given == "number" else 1, unit=unit if unit != "rad" else "deg"))
    ang = h.result(M.pixel_to_angular, p * u.pix if given == "pix" else p, w)
    h.goal("is-an-angle", isinstance(ang, units.Quantity) and ang.unit.dims == {"angle": 1})
    same(h, "angle", ang.to_value(u.deg), sh, lambda *i: num(at(*i)) * deg)
    back = h.result(M.angular_to_pixel, ang, w)
    h.goal("plain-number", not isinstance(back, units.Quantity))
    same(h, "inverse", back, sh, lambda *i: num(at(*i)))
    # the other way, from an angle in any unit
    x, xt, sh = inp(h, "ang", form, lambda v: v.t > 0)
    th = units.Quantity(x, uu)
    q = h.result(M.angular_to_pixel, th, w)
    h.goal("plain-number", not isinstance(q, units.Quantity))
    same(h, "pixels", q, sh, lambda *i: num(xt(*i)) * uu.scale / deg)
    back = h.result(M.pixel_to_angular, q, w)
    same(h, "inverse-angle", back.to_value(uu), sh, lambda *i: num(xt(*i)))
    frame(h, p, x)


@unit("C25.unequal", sizes=SIZES, variants={"cunit": ["deg", "arcsec"], "unit": ["arcsec", "deg"]})
def unequal(h, cunit, unit):
    """pixel scales that differ by more than a part in a thousand are rejected by both"""
    M = h.load().module(U)
    u, w, deg = wcs(h, cunit, False)
    h.case = lambda ev: ev.d(**dict(BASE, scale=ev.num(deg), ratio=ev.num(w._scales[1]) / ev.num(w._scales[0]), rot=0.0))
    x = h.real("x")
    h.assume(x.t > 0)
    h.rejects(M.angular_to_pixel, units.Quantity(x, getattr(u, unit)), w)
    h.rejects(M.pixel_to_angular, x, w)
