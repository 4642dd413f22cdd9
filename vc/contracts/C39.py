"""Elliptical apertures and annuli."""
from ..contract import *
from .. import phot
from .common import *

P = "petrofit.photometry"


def inputs(h, form, dflt):
    x, y, el, th = h.real("x"), h.real("y"), h.real("elong"), h.real("theta")
    mk = h.int if form == "int" else h.real
    r, dr = mk("r"), mk("dr")
    h.assume(And(r.t > 0, dr.t > 0, el.t > 0))
    pos = h.array("pos", (2,)) if form == "array" else [x, y] if form == "list" else (x, y)
    xy = [num(pos.get(0)), num(pos.get(1))] if form == "array" else [x, y]
    if dflt:
        el, th, kw = num(1), num(0), {}
    else:
        kw = dict(elong=el, theta=th)
    if form != "array":
        h.case = lambda ev: ev.d(pos={"__t__": [ev.num(x), ev.num(y)]}, r=ev.num(r), dr=ev.num(dr), elong=ev.num(el), theta=ev.num(th), dflt=dflt, bad=False)
    return pos, xy, r, dr, el, th, kw


FORMS = {"form": ["tuple", "list", "array", "int"], "dflt": [False, True]}
SIZES = [{}]


@unit("C39.aperture", variants=FORMS, sizes=SIZES)
def aperture(h, form, dflt):
    """semi-axes r and r / elong at the given centre and orientation"""
    M = h.load().module(P)
    pos, xy, r, dr, el, th, kw = inputs(h, form, dflt)
    a = h.result(M.radial_elliptical_aperture, pos, r, **kw)
    if type(a) is not phot.EllipticalAperture:
        raise Unsupported("aperture of type %s" % type(a).__name__)
    for n, g, w in (("x", a.pos[0], xy[0]), ("y", a.pos[1], xy[1]), ("semi-major-axis", a.a, r), ("theta", a.theta, th)):
        h.ensure_eq(n, g, w)
    h.goal("semi-minor-axis", And(Not(a.b.nan), toreal(a.b.t) * toreal(num(el).t) == toreal(r.t)))
    if isinstance(pos, SArr):
        h.unchanged(pos)


@unit("C39.annulus", variants=FORMS, sizes=SIZES)
def annulus(h, form, dflt):
    """inner and outer ellipses of semi-major axes r and r + dr, all of the given elongation and orientation"""
    M = h.load().module(P)
    pos, xy, r, dr, el, th, kw = inputs(h, form, dflt)
    a = h.result(M.radial_elliptical_annulus, pos, r, dr, **kw)
    if type(a) is not phot.EllipticalAnnulus:
        raise Unsupported("annulus of type %s" % type(a).__name__)
    R = num(r) + num(dr)
    for n, g, w in (("x", a.pos[0], xy[0]), ("y", a.pos[1], xy[1]), ("inner-semi-major-axis", a.a_in, r), ("outer-semi-major-axis", a.a_out, R), ("theta", a.theta, th)):
        h.ensure_eq(n, g, w)
    h.goal("outer-semi-minor-axis", And(Not(a.b_out.nan), toreal(a.b_out.t) * toreal(num(el).t) == toreal(R.t)))
    h.goal("inner-semi-minor-axis", And(Not(a.b_in.nan), toreal(a.b_in.t) * toreal(num(el).t) == toreal(r.t)))
    if isinstance(pos, SArr):
        h.unchanged(pos)


@unit("C39.rejected", variants={"what": ["aperture", "annulus", "thickness"]}, sizes=SIZES)
def rejected(h, what):
    """radii and thicknesses that are not positive are rejected"""
    M = h.load().module(P)
    pos, xy, r, dr, el, th, kw = (h.real("x"), h.real("y")), None, h.real("r"), h.real("dr"), h.real("elong"), h.real("theta"), None
    h.assume(el.t > 0)
    if what == "aperture":
        h.assume(r.t <= 0)
        return h.rejects(M.radial_elliptical_aperture, pos, r, el, th)
    if what == "annulus":
        h.assume(And(r.t <= 0, dr.t > 0))
    else:
        h.assume(And(r.t > 0, dr.t <= 0))
    h.rejects(M.radial_elliptical_annulus, pos, r, dr, el, th)
