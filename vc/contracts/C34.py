"""Polynomial approximations of the Sersic relations, against an enclosure of the exact ones."""
import math
from fractions import Fraction
from functools import lru_cache
import z3
from ..contract import *
from .. import astro
from .common import *
from ..shim import use

MM = "petrofit.modeling.models"
NLO, NHI = 0.5, 10.0
# function: (argument, value, relative tolerance, cells)
REL = {"u2080_to_c2080": ("u2080", "c2080", Fraction(2, 100), 500), "c2080_to_n": ("c2080", "n", Fraction(3, 100), 1000),
       "n_to_epsilon": ("n", "epsilon", Fraction(1, 100), 1200), "p0502_to_epsilon": ("p0502", "epsilon", Fraction(25, 1000), 1200)}
ASSUMPTIONS = ["on Sersic indices 0.5 to 10 the uncorrected and corrected C2080, P0502 and the corrected epsilon increase with the index (checked at the cell ends), and scipy's regularised gamma function and its inverse, and the root of the Petrosian equation, are right to 1e-9 at the cell ends",
               "exp increases and is convex, and mpmath's exp is right to 1e-12"]


@lru_cache(None)
def exact(n):
    """the exact relations of a Sersic profile of index n (radii in effective radii)"""
    from scipy.special import gammainc, gammaincinv, gamma
    from scipy.optimize import brentq
    b = gammaincinv(2 * n, .5)
    enc = lambda r: gammainc(2 * n, b * r ** (1 / n))
    inv = lambda f: (gammaincinv(2 * n, f) / b) ** n
    tot = 2 * math.pi * n * b ** (-2 * n) * gamma(2 * n)
    rp = lambda eta: brentq(lambda r: math.exp(-b * r ** (1 / n)) * math.pi * r * r / (tot * enc(r)) - eta, 1e-4, 1e3, xtol=1e-13, rtol=1e-13)
    r02 = rp(.2)
    t = enc(2 * r02)
    conc = lambda t: 5 * math.log10(inv(.8 * t) / inv(.2 * t))
    return {"n": n, "c2080": conc(1.0), "u2080": conc(t), "p0502": 5 * math.log10(r02 / rp(.5)), "epsilon": inv(.99) / r02}


def cells(arg, val, count):
    """(argument range, value range) of consecutive index intervals, both enclosing the exact relation"""
    from scipy.optimize import brentq
    s = lambda n: math.log(n) + n / 2.7        # cells fine enough at both ends of the range
    ns = [NLO] + [brentq(lambda n: s(n) - (s(NLO) + (s(NHI) - s(NLO)) * i / count), NLO, NHI) for i in range(1, count)] + [NHI]
    t = [exact(n) for n in ns]
    for k in (arg, val):
        assert all(a[k] < b[k] for a, b in zip(t, t[1:])), k
    dn = lambda v: Fraction(v) * (1 - Fraction(1, 10 ** 9))
    up = lambda v: Fraction(v) * (1 + Fraction(1, 10 ** 9))
    return [(dn(a[arg]), up(b[arg]), dn(a[val]), up(b[val]), (n0 + n1) / 2) for a, b, n0, n1 in zip(t, t[1:], ns, ns[1:])]


# ------------------------------------------------ one-dimensional models

POLY = "Polynomial1D(degree, c0=.., ..)(x) is the sum of c_k x**k (absent coefficients 0, default domain and window) and Exponential1D(amplitude, tau)(x) is amplitude*exp(x/tau), elementwise; the sum of two models evaluates to the sum of their values"


class M1:
    def __init__(self, f):
        self.f = f

    def __call__(self, x, *a, **k):
        if a or k:
            raise Unsupported("one-dimensional model call with options")
        use("astropy.modeling.models (1D)", POLY)
        x = shim.raw(x) if not isinstance(x, SArr) else x
        if isinstance(x, (list, tuple)):
            x = h_array(x)
        if isinstance(x, SArr):
            return arr.ew(lambda v: core.to_float(num(self.f(core.to_float(num(v))))), x, kind="f")
        return core.to_float(num(self.f(core.to_float(num(x)))))

    def __add__(self, o):
        if not isinstance(o, M1):
            raise Unsupported("sum of a model and something else")
        return M1(lambda x: self.f(x) + o.f(x))

    def __sub__(self, o):
        if not isinstance(o, M1):
            raise Unsupported("difference of a model and something else")
        return M1(lambda x: self.f(x) - o.f(x))

    def __mul__(self, o):
        if not isinstance(o, M1):
            raise Unsupported("product of a model and something else")
        return M1(lambda x: self.f(x) * o.f(x))


def h_array(x):
    raise Unsupported("list argument")


def poly(degree, domain=None, window=None, **c):
    d = core.concrete(num(degree))
    names = ["c%d" % i for i in range(d + 1)]
    if domain is not None or window is not None or set(c) - set(names):
        raise Unsupported("Polynomial1D options")
    cs = [core.to_float(num(c.get(k, 0.0))) for k in names]

    def f(x):
        s = cs[-1]
        for k in reversed(cs[:-1]):
            s = s * x + k
        return s
    return M1(f)


def expo(amplitude=1.0, tau=1.0, **k):
    if k:
        raise Unsupported("Exponential1D options")
    a, t = core.to_float(num(amplitude)), core.to_float(num(tau))
    return M1(lambda x: a * core.f_exp(x / t))


SHIMS = {"astropy.modeling.models.Polynomial1D": poly, "astropy.modeling.models.Exponential1D": expo}


def fn(h, name):
    m = h.load(shims=SHIMS).module(MM)
    return getattr(m.PetroApprox, name)


def exps(t, x):
    """applications of exp in a term, whose argument is affine in x"""
    out, seen = [], set()

    def leaves(a):
        if z3.is_rational_value(a) or z3.is_int_value(a) or z3.is_algebraic_value(a):
            return 0
        if a.eq(x):
            return 1
        k = a.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            return sum(leaves(b) for b in a.children())
        if k == z3.Z3_OP_DIV and leaves(a.arg(1)) == 0:
            return leaves(a.arg(0))
        return 99

    def go(a):
        if a.get_id() in seen:
            return
        seen.add(a.get_id())
        for b in a.children():
            go(b)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args():
            if a.decl().name().split("!")[0] != "exp" or leaves(z3.simplify(a.arg(0))) > 1:
                raise Unsupported("the value contains %s" % a.decl().name())
            out.append(a)
    go(t)
    return out


def rat(q):
    return z3.RealVal(str(q.numerator) + "/" + str(q.denominator))


def value(t):
    t = z3.simplify(t)
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


def enclose(q):
    """exp of a rational, from below and above"""
    import mpmath
    with mpmath.workdps(30):
        v = mpmath.exp(mpmath.mpf(q.numerator) / q.denominator)
        v = Fraction(str(mpmath.nstr(v, 25)))
    return v * (1 - Fraction(1, 10 ** 12)), v * (1 + Fraction(1, 10 ** 12))


@unit("C34.accuracy", variants={"f": sorted(REL), "part": list(range(8))}, sizes=[{}], scalar=True, budget=240)
def accuracy(h, f, part):
    """for every index 0.5..10 the approximation at the exact argument is within the stated tolerance of the exact value"""
    a, v, tol, count = REL[f]
    g = fn(h, f)
    x = h.real("x")
    got = num(scalar(h.result(g, x)))
    h.goal("defined", Not(got.nan))
    t = toreal(got.t)
    xs = exps(t, x.t)
    ev = [z3.Real("exp%d" % i) for i in range(len(xs))]
    t2 = z3.substitute(t, *zip(xs, ev)) if xs else t
    todo = cells(a, v, count)
    for k, (lo, hi, vlo, vhi, n) in enumerate(todo):
        if k * 8 // count != part:
            continue
        hyp = [x.t >= rat(lo), x.t <= rat(hi)]
        for e, var in zip(xs, ev):
            # between the tangent at the lower end and the chord
            y0, y1 = sorted(value(z3.substitute(e.arg(0), (x.t, rat(q)))) for q in (lo, hi))
            (l0, u0), (l1, u1) = enclose(y0), enclose(y1)
            y = e.arg(0)
            if y0 == y1:
                hyp += [var >= rat(l0), var <= rat(u0)]
            else:
                hyp += [var >= rat(l0) * (1 + (y - rat(y0))), var <= rat(u0) + rat((u1 - u0) / (y1 - y0)) * (y - rat(y0))]
        h.case = lambda e, n=n: e.d(f=f, n=n, form="float", span=0.01)
        h.goal("indices-%d.." % int(n) if n >= 1 else "indices-0.5..", Implies(And(*hyp), And(t2 <= rat(vlo * (1 + tol)), t2 >= rat(vhi * (1 - tol)))))


@unit("C34.elementwise", variants={"f": sorted(REL), "k": ["f", "i"], "d": [1, 2]}, sizes=[{"n": 2}])
def elementwise(h, f, k, d):
    """an array converts element by element and stays as it was; an integer converts as the real number"""
    g = fn(h, f)
    shape = (h.dim("n", 1),) * d
    a = h.array("a", shape, k=k)
    got = h.result(g, a)
    h.ensure_array("element", got, shape, lambda *i: num(scalar(h.result(g, core.to_float(num(a.get(*i)))))))
    h.unchanged(a)
