"""Analytic Sersic relations."""
from ..contract import *
from .. import nf, astro
from .common import *

MM = "petrofit.modeling.models"
INF = float("inf")
ASSUMPTIONS = ["the area integral of the profile is the integral of 2 pi r (1-ellip) I(r) over the radius (concentric similar ellipses), and a function that vanishes at 0, is continuous and has the integrand as its derivative for all r > 0 is that integral"]


def pi_():
    return shim.pi()


class P:
    """positive parameters, ellipticity below 1"""

    def __init__(self, h, e=True):
        self.amp, self.re, self.n = h.real("amp"), h.real("re"), h.real("n")
        self.e = h.real("ellip") if e else num(0.0)
        h.assume(And(self.amp.t > 0, self.re.t > 0, self.n.t > 0))
        if e:
            h.assume(And(self.e.t >= 0, self.e.t < 1))
        self.bn = shim.gammaincinv_(num(2.0) * self.n, num(0.5))
        self.kw = dict(amplitude=self.amp, r_eff=self.re, n=self.n)
        if e:
            self.kw["ellip"] = self.e

    def intensity(self, r):
        """the Sersic profile"""
        return self.amp * core.f_exp(-self.bn * ((r / self.re) ** (num(1.0) / self.n) - num(1.0)))

    def total(self):
        """limit of the enclosed flux"""
        n2 = num(2.0) * self.n
        return self.amp * self.re * self.re * num(2.0) * num(pi_()) * self.n * core.f_exp(self.bn) / self.bn ** n2 * shim.gamma_(n2) * (num(1.0) - self.e)


def case_of(h, p, r, f=None):
    h.case = lambda ev: ev.d(amp=ev.num(p.amp), re=ev.num(p.re), n=ev.num(p.n), ellip=ev.num(p.e), fr=.5, x=ev.num(r) / ev.num(p.re) if r is not None else 1., arr=True, deep=True)


def rel(h, name, got, want):
    got = scalar(got)
    return h.ensure_eq(name, got, want)


@unit("C18.zero", variants={"e": [True, False], "r": ["float", "int"]}, sizes=[{}])
def zero(h, e, r):
    m = h.load().module(MM)
    p = P(h, e)
    case_of(h, p, None)
    rel(h, "no-flux-within-radius-0", h.result(m.sersic_enclosed, num(0.0) if r == "float" else num(0), **p.kw), num(0.0))


@unit("C18.half", variants={"e": [True, False]}, sizes=[{}])
def half(h, e):
    m = h.load().module(MM)
    p = P(h, e)
    case_of(h, p, None)
    tot = h.result(m.sersic_enclosed, INF, **p.kw)
    rel(h, "total-flux", tot, p.total())
    rel(h, "half-of-the-total-within-r_eff", num(h.result(m.sersic_enclosed, p.re, **p.kw)) * num(2.0), p.total())


@unit("C18.integral", variants={"e": [True, False]}, sizes=[{}])
def integral(h, e):
    """d/dr enclosed(r) = 2 pi r (1 - ellip) I(r)"""
    m = h.load().module(MM)
    p = P(h, e)
    r = h.real("r")
    h.assume(r.t > 0)
    case_of(h, p, r)
    out = num(scalar(h.result(m.sersic_enclosed, r, **p.kw)))
    h.goal("defined", Not(out.nan))
    try:
        d = nf.diff(simp(out.t), r.t)
    except NotImplementedError as ex:
        raise Unsupported(str(ex))
    for t in subterms(d):
        positive_powers(h, t)
    want = num(2.0) * num(pi_()) * r * (num(1.0) - p.e) * p.intensity(r)
    h.goal("derivative-is-the-flux-of-the-ellipse-at-r", d == want.t)


def subterms(t, seen=None):
    seen = {} if seen is None else seen
    if t.get_id() not in seen:
        seen[t.get_id()] = t
        for c in t.children():
            subterms(c, seen)
    return list(seen.values())


def positive_powers(h, t):
    """the engine's axioms for the special functions the derivative introduces"""
    if not z3.is_app(t) or not t.children():
        return
    n = t.decl().name()
    if n == "exp":
        h.c.fact(t > 0)
    if n in ("pow", "gamma"):
        h.c.fact(Implies(t.arg(0) > 0, t > 0))


@unit("C18.enclosed-of-inverse", variants={"e": [True, False]}, sizes=[{}])
def inv1(h, e):
    m = h.load().module(MM)
    p = P(h, e)
    f = h.real("flux")
    q = h.real("fraction")
    h.assume(And(q.t > 0, q.t < 1))
    f = q * p.total()            # every flux between 0 and the total is this for one fraction
    case_of(h, p, None)
    r = h.result(m.sersic_enclosed_inv, f, **p.kw)
    h.goal("radius.defined", And(Not(num(scalar(r)).nan)))
    rel(h, "flux-within-the-radius-enclosing-it", h.result(m.sersic_enclosed, r, **p.kw), f)


@unit("C18.inverse-of-enclosed", variants={"e": [True, False]}, sizes=[{}])
def inv2(h, e):
    m = h.load().module(MM)
    p = P(h, e)
    r = h.real("r")
    h.assume(r.t > 0)
    case_of(h, p, r)
    f = h.result(m.sersic_enclosed, r, **p.kw)
    rel(h, "radius-enclosing-the-flux-within-it", h.result(m.sersic_enclosed_inv, f, **p.kw), r)


@unit("C18.petrosian", variants={"e": [True, False]}, sizes=[{}])
def petrosian(h, e):
    m = h.load().module(MM)
    p = P(h, e)
    r = h.real("r")
    h.assume(r.t > 0)
    case_of(h, p, r)
    enc = num(scalar(h.result(m.sersic_enclosed, r, **p.kw)))
    got = num(scalar(h.result(m.petrosian_profile, r, p.re, p.n)))
    area = num(pi_()) * r * r * (num(1.0) - p.e)
    h.goal("defined", And(Not(got.nan), Not(enc.nan)))
    rel(h, "intensity-over-mean-intensity", got * enc / area, p.intensity(r))


@unit("C18.central", sizes=[{}])
def central(h):
    m = h.load().module(MM)
    p = P(h, False)
    case_of(h, p, None)
    i0 = h.result(m.Ie_to_I0, p.amp, p.n)
    z = p.amp * core.f_exp(p.bn)          # the profile at radius 0
    rel(h, "profile-at-radius-0", i0, z)
    rel(h, "I0_to_Ie-inverts", h.result(m.I0_to_Ie, i0, p.n), p.amp)
    rel(h, "Ie_to_I0-inverts", h.result(m.Ie_to_I0, h.result(m.I0_to_Ie, p.amp, p.n), p.n), p.amp)


@unit("C18.default-ellipticity")
def dflt(h):
    m = h.load().module(MM)
    p = P(h, False)
    r = h.real("r")
    h.assume(r.t > 0)
    a = h.result(m.sersic_enclosed, r, p.amp, p.re, p.n)
    rel(h, "ellipticity-0", a, h.result(m.sersic_enclosed, r, p.amp, p.re, p.n, num(0.0)))
    q = h.real("f")
    h.assume(q.t > 0)
    rel(h, "inverse.ellipticity-0", h.result(m.sersic_enclosed_inv, q, p.amp, p.re, p.n), h.result(m.sersic_enclosed_inv, q, p.amp, p.re, p.n, num(0.0)))


@unit("C18.arrays", variants={"fn": ["sersic_enclosed", "sersic_enclosed_inv", "petrosian_profile", "sersic_enclosed_model", "petrosian_model"]})
def arrays(h, fn):
    """arrays are evaluated element by element, and the fittable models agree with the functions"""
    m = h.load().module(MM)
    p = P(h, True)
    n = h.dim("n", 1)
    R = h.array("r", n)
    h.forall([n], lambda i: R.get(i).t > 0, ["r"])
    if fn == "sersic_enclosed_inv":
        h.forall([n], lambda i: R.get(i).t < p.total().t, ["r"])
    base = {"sersic_enclosed_model": "sersic_enclosed", "petrosian_model": "petrosian_profile"}.get(fn, fn)
    kw = dict(r_eff=p.re, n=p.n) if base == "petrosian_profile" else p.kw
    f = getattr(m, fn)
    out = h.result(f, R, **kw) if fn == base else h.result(h.result(f, **kw), R)
    h.ensure_array("elementwise", out, (n,), lambda i: num(scalar(getattr(m, base)(R.get(i), **kw))))
    h.unchanged(R)
