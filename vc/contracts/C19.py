"""GenSersic2D, CoreSersic2D and Nuker2D against their published formulas."""
from ..contract import *
from .. import astro
from .common import *

MM = "petrofit.modeling.models"


def f_(x):
    return core.to_float(num(x))


class P:
    def __init__(self, h):
        g = lambda n: h.real(n)
        self.amp, self.re, self.rb, self.n, self.x0, self.y0, self.e, self.th, self.c0 = [g(k) for k in ("amp", "re", "rb", "n", "x0", "y0", "ellip", "theta", "c0")]
        self.al, self.be, self.ga = g("alpha"), g("beta"), g("gamma")
        h.assume(And(self.amp.t > 0, self.re.t > 0, self.rb.t > 0, self.n.t > 0, self.e.t >= 0, self.e.t < 1, self.c0.t > -2, self.al.t > 0))
        self.bn = shim.gammaincinv_(num(2.0) * self.n, num(0.5))
        self.h = h

    def axes(self, x, y):
        """coordinates along the major and minor axes; theta increases counterclockwise from the positive x axis"""
        c, s = core.f_cos(self.th), core.f_sin(self.th)
        dx, dy = x - self.x0, y - self.y0
        return dx * c + dy * s, dy * c - dx * s

    def generalised(self, x, y, c0):
        u, w = self.axes(x, y)
        k = c0 + num(2.0)
        z = (abs(u) ** k + abs(w / (num(1.0) - self.e)) ** k) ** (num(1.0) / k)
        return self.amp * core.f_exp(-self.bn * ((z / self.re) ** (num(1.0) / self.n) - num(1.0)))

    def sersic(self, x, y):
        u, w = self.axes(x, y)
        w = w / (num(1.0) - self.e)
        z = core.f_sqrt(u * u + w * w)
        return self.amp * core.f_exp(-self.bn * ((z / self.re) ** (num(1.0) / self.n) - num(1.0)))

    def distance(self, x, y):
        u, w = self.axes(x, y)
        w = w / (num(1.0) - self.e)
        return core.f_sqrt(u * u + w * w)

    def core_sersic(self, x, y):
        r = self.distance(x, y)
        al, one = self.al, num(1.0)
        I = self.amp * num(2.0) ** (-(self.ga / al)) * core.f_exp(self.bn * (num(2.0) ** (one / al) * self.rb / self.re) ** (one / self.n))
        return I * (one + (self.rb / r) ** al) ** (self.ga / al) * core.f_exp(-self.bn * ((r ** al + self.rb ** al) / self.re ** al) ** (one / (al * self.n)))

    def nuker(self, r):
        al, one = self.al, num(1.0)
        q = r / self.rb
        return self.amp * num(2.0) ** ((self.be - self.ga) / al) * q ** (-self.ga) * (one + q ** al) ** ((self.ga - self.be) / al)


def case_of(h, p, X, Y, n):
    pad = lambda ev, a: {"__nd__": [ev.num(a.get(min(i, n - 1))) for i in range(5)], "dtype": "float64", "shape": [5]}
    if h.bounded:
        h.case = lambda ev: ev.d(amp=ev.num(p.amp), re=ev.num(p.re), rb=ev.num(p.rb), n=ev.num(p.n), x0=ev.num(p.x0), y0=ev.num(p.y0), ellip=ev.num(p.e), theta=ev.num(p.th), c0=ev.num(p.c0),
                                 al=ev.num(p.al), be=ev.num(p.be), ga=ev.num(p.ga), x=pad(ev, X), y=pad(ev, Y), axis=False)


def points(h):
    n = h.dim("points", 1)
    X, Y = h.array("x", (n,)), h.array("y", (n,))
    return n, X, Y


def model(h, p, which, c0=None):
    m = h.load().module(MM)
    if which == "gen":
        return h.result(m.GenSersic2D, amplitude=p.amp, r_eff=p.re, n=p.n, x_0=p.x0, y_0=p.y0, ellip=p.e, theta=p.th, **({} if c0 is None else {"c_0": c0}))
    if which == "core":
        return h.result(m.CoreSersic2D, amplitude=p.amp, r_eff=p.re, r_break=p.rb, n=p.n, x_0=p.x0, y_0=p.y0, alpha=p.al, gamma=p.ga, ellip=p.e, theta=p.th)
    return h.result(m.Nuker2D, amplitude=p.amp, r_break=p.rb, x_0=p.x0, y_0=p.y0, alpha=p.al, betta=p.be, gamma=p.ga)


def off_centre(h, p, n, X, Y, elliptical):
    """points away from the centre: there the elliptical distance is positive"""
    def pos(i):
        x, y = f_(X.get(i)), f_(Y.get(i))
        d = p.distance(x, y) if elliptical else core.f_sqrt((x - p.x0) ** 2 + (y - p.y0) ** 2)
        return And(d.t > 0)
    h.forall([n], pos, ["x"])


def check(h, name, out, n, want):
    h.ensure_array(name, out, (n,), want)


@unit("C19.generalised-sersic", sizes=[{"points": 1}, {"points": 2}], variants={"what": ["formula", "c0=0", "default-c0"]})
def gen(h, what):
    p = P(h)
    n, X, Y = points(h)
    case_of(h, p, X, Y, n)
    c0 = {"formula": p.c0, "c0=0": num(0.0), "default-c0": None}[what]
    out = h.result(model(h, p, "gen", c0), X, Y)
    if what == "formula":
        check(h, "formula", out, n, lambda i: p.generalised(f_(X.get(i)), f_(Y.get(i)), p.c0))
    else:
        check(h, "sersic-profile", out, n, lambda i: p.sersic(f_(X.get(i)), f_(Y.get(i))))
    h.unchanged(X, Y)


@unit("C19.core-sersic", sizes=[{"points": 1}, {"points": 2}])
def core_s(h):
    p = P(h)
    n, X, Y = points(h)
    off_centre(h, p, n, X, Y, True)
    case_of(h, p, X, Y, n)
    out = h.result(model(h, p, "core"), X, Y)
    check(h, "formula", out, n, lambda i: p.core_sersic(f_(X.get(i)), f_(Y.get(i))))
    h.unchanged(X, Y)


def radius(p, X, Y, i):
    dx, dy = f_(X.get(i)) - p.x0, f_(Y.get(i)) - p.y0
    return core.f_sqrt(dx * dx + dy * dy)


@unit("C19.nuker", sizes=[{"points": 1}, {"points": 2}], variants={"what": ["formula", "break"]})
def nuker(h, what):
    p = P(h)
    n, X, Y = points(h)
    case_of(h, p, X, Y, n)
    if what == "break":           # a point at distance rb is (x0 + rb cos t, y0 + rb sin t) for some t
        A = h.array("angle", (n,))
        X = SArr((n,), "f", lambda i: p.x0 + p.rb * core.f_cos(f_(A.get(i))), name="X")
        Y = SArr((n,), "f", lambda i: p.y0 + p.rb * core.f_sin(f_(A.get(i))), name="Y")
    else:
        off_centre(h, p, n, X, Y, False)
    out = h.result(model(h, p, "nuker"), X, Y)
    check(h, "formula" if what == "formula" else "amplitude-at-the-break-radius", out, n, (lambda i: p.nuker(radius(p, X, Y, i))) if what == "formula" else (lambda i: p.amp))
    h.unchanged(X, Y)


@unit("C19.reflection", variants={"which": ["gen", "core", "nuker"]})
def reflection(h, which):
    p = P(h)
    n, X, Y = points(h)
    if which != "gen":
        off_centre(h, p, n, X, Y, which == "core")
    two = num(2.0)
    X2, Y2 = SArr((n,), "f", lambda i: two * p.x0 - f_(X.get(i))), SArr((n,), "f", lambda i: two * p.y0 - f_(Y.get(i)))
    m = model(h, p, which, p.c0)
    a, b = h.result(m, X, Y), h.result(m, X2, Y2)
    h.ensure_array("symmetric-about-the-centre", b, (n,), lambda i: a.get(i))
