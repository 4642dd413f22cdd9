"""Total and half flux of a Petrosian object."""
from ..contract import *
from .common import *

PAIRS = {"total": ("r_total_flux", "total_flux", "total_flux_err", "r_total_flux_err"), "half": ("r_half_light", "half_flux", "half_flux_err", "r_half_light_err")}


@unit("C07.flux", variants={"which": ["total", "half"], "kind": ["cubic", "linear", None], "errs": ["", "flux", "area", "area+flux"], "k": ["f", "i"]})
def flux(h, which, kind, errs, k):
    cls = load_obj(h)
    d = Data(h, errs, k)
    s = settings(h, "", kind)
    o = build(h, cls, d, s)
    rn, fn, en, ren = PAIRS[which]
    frac = s["total_flux_fraction"] if which == "total" else num(0.5)
    r, re = d.fraction(h, s, frac)
    h.ensure_eq("radius", h.result(getattr, o, rn), r)
    h.ensure_eq("radius-error", h.result(getattr, o, ren), re)
    F = h.result(getattr, o, fn)
    E = num(h.result(getattr, o, en))
    if bool(SBool(r.nan)):
        h.goal("nan-without-radius", num(F).nan)
        h.goal("error-nan-without-radius", E.nan)
        return
    h.ensure_eq("curve-of-growth-at-the-radius", F, at_knot_free(d.r, d.L, kind, r))
    if d.ef is None:
        h.goal("error-nan-without-flux-errors", E.nan)
        return
    f = shim.interp1d(d.r, d.ef, kind="nearest")
    near, ke = f.val(r), f.nearest(r)
    h.goal("error-at-least-that-of-the-nearest-aperture", Or(And(E.nan, re.nan), And(Not(E.nan), E.t >= v(d.ef, ke).t)))
    for (j,) in h.index((d.n,)):
        x = lambda i: core.to_float(d.r.get(i)) - r
        h.goal("nearest-aperture", And(ke >= 0, ke < T(d.n), dist(x(ke)) <= dist(x(T(j)))))
    h.unchanged(*d.list)


def dist(x):
    return If(x.t >= 0, x.t, -x.t)


@unit("C07.epsilon-radius", variants={"k": ["f", "i"], "kind": ["cubic", None]})
def eps(h, k, kind):
    cls = load_obj(h)
    d = Data(h, "flux", k)
    s = settings(h, "", kind)
    o = build(h, cls, d, s)
    rp = d.radius(h, s)[0]
    h.ensure_eq("petrosian-radius", h.result(getattr, o, "r_petrosian"), rp)
    re = rp * s["epsilon"]
    h.ensure_eq("epsilon-radius", h.result(getattr, o, "r_epsilon"), re)
    lo, hi = core.to_float(arr.minmax(d.r, True)), core.to_float(arr.minmax(d.r, False))
    b = h.result(getattr, o, "r_epsilon_in_range")
    h.goal("in-range", as_bool(b).t == And(Not(re.nan), re.t >= lo.t, re.t <= hi.t))
    h.unchanged(*d.list)
