"""Radius lists, resampling, threshold search."""
from ..contract import *
from .common import *

U = "petrofit.utils"


def base(ev, **k):
    d = dict(x={"__nd__": [0.0, 1.0, 2.0, 3.0], "dtype": "float64", "shape": [4]}, y={"__nd__": [0.0, 1.0, 2.0, 3.0], "dtype": "float64", "shape": [4]}, kind=None, num=7, value=1.0, grow=False, max=5.0, n=4, lists=False)
    d.update(k)
    return ev.d(**d)


@unit("C26.search", sizes=[{"n": 1}, {"n": 3}, {"n": 4}], variants={"growing": [False, True, "default"], "k": ["f", "i"]})
def search(h, growing, k):
    f = h.load().module(U).closest_value_index
    n = h.dim("n", 1)
    a = h.array("a", n, k)
    val = h.real("value")
    h.case = lambda ev: base(ev, value=ev.num(val), x=ev.nd(a), y=ev.nd(a), grow=growing is True)
    out = h.result(f, val, a) if growing == "default" else h.result(f, val, a, growing=growing)
    r = reach(a, val, growing is True)
    p = first_index(h, n, r)
    if out is None:
        h.goal("none-only-if-never-reached", p == T(n))
    else:
        k = num(out)
        h.goal("index-up-to-first-crossing", And(p < T(n), k.t >= 0, k.t <= p))
        for (j,) in h.index((n,)):
            h.goal("closest", Implies(And(T(j) <= p, p < T(n), k.t >= 0, k.t <= p), gap(a, val, k.t) <= gap(a, val, j)))
    h.unchanged(a)


@unit("C26.resample", sizes=[{"n": 4, "m": 3}, {"n": 4, "m": 6}], variants={"kind": [None, "cubic", "linear", "nearest"], "k": ["f", "i"]})
def resample(h, kind, k):
    f = h.load().module(U).get_interpolated_values
    n, m = h.dim("n", 2), h.dim("m", 1)
    x, y = h.array("x", n, k), h.array("y", n, "f")
    if h.bounded:
        h.forall([n], lambda i: Implies(i >= 1, x.get(i).t > x.get(simp(i - 1)).t))
    h.case = lambda ev: base(ev, x=ev.nd(x), y=ev.nd(y), num=m, kind=kind)
    out = h.result(f, x, y, num=I(m), kind=kind)
    h.goal("result-is-a-pair", isinstance(out, tuple) and len(out) == 2)
    X, Y = interp_spec(x, y, m, kind)
    h.ensure_array("abscissae", out[0], X._shape, lambda i: X.get(i))
    h.ensure_array("values", out[1], X._shape, lambda i: Y.get(i))
    if kind is not None:
        N = X._shape[0]
        h.goal("at-least-as-many-as-input", And(T(N) >= T(n), T(N) >= T(m)))
        lo, hi = core.to_float(arr.minmax(x, True)), core.to_float(arr.minmax(x, False))
        if h.c.decide(T(N) >= 2) is True:
            h.ensure_eq("starts-at-smallest", asarr(out[0]).get(0), lo)
            h.ensure_eq("ends-at-largest", asarr(out[0]).get(sub(T(N), 1) if not isinstance(N, int) else N - 1), hi)
    h.unchanged(x, y)


@unit("C26.defaults", sizes=[{"n": 4}])
def defaults(h):
    """5000 points of a cubic unless told otherwise"""
    f = h.load().module(U).get_interpolated_values
    n = h.dim("n", 2)
    x, y = h.array("x", n, "f"), h.array("y", n, "f")
    if h.bounded:
        h.forall([n], lambda i: Implies(i >= 1, x.get(i).t > x.get(simp(i - 1)).t))
    h.assume(T(n) <= 5000)
    out = h.result(f, x, y)
    X, Y = interp_spec(x, y, 5000, "cubic")
    h.goal("number-of-points", asarr(out[0])._shape == (5000,) and asarr(out[1])._shape == (5000,))
    k = h.int("k")
    h.assume(And(k.t >= 0, k.t < 5000))
    h.ensure_eq("abscissae", asarr(out[0]).get(k.t), X.get(k.t))
    h.ensure_eq("values", asarr(out[1]).get(k.t), Y.get(k.t))


@unit("C26.radii", sizes=[{"n": 2}, {"n": 5}], variants={"log": [False, True, "default"]})
def radii(h, log):
    opt = {} if log == "default" else {"log": log}
    log = log is True
    f = h.load().module(U).make_radius_list
    n = h.dim("n", 2 if log else 1)
    R = h.real("max_pix")
    h.assume(R.t > (1 if log else 0))
    h.case = lambda ev: base(ev, max=ev.num(R), n=n)
    out = h.result(f, R, I(n), **opt)
    ten = num(10.0)
    nn = SNum(z3.ToReal(T(n)), FALSE, "f")
    if log:
        want = lambda i: ten ** (core.f_log(R, "log10") * SNum(z3.ToReal(T(i)), FALSE, "f") / (nn - 1))
    else:
        want = lambda i: SNum(z3.ToReal(T(i) + 1), FALSE, "f") * R / nn
    h.ensure_array("definition", out, (n,), want)
    h.ensure_eq("ends-at-maximum", asarr(out).get(n - 1 if isinstance(n, int) else simp(n - 1)), R)
    if log:
        h.ensure_eq("starts-at-one", asarr(out).get(0), num(1.0))
    else:
        for (j,) in h.index((n,)):
            h.goal("increasing", Implies(T(j) >= 1, asarr(out).get(j).t > asarr(out).get(sub(j, 1)).t if not (isinstance(j, int) and j == 0) else TRUE))


@unit("C26.lemma")
def lemma(h):
    """the points of linspace(a, b) lie in [a, b]"""
    m, k = z3.Int("m"), z3.Int("k")
    linspace_lemma(h, h.real("a"), h.real("b"), m, k)
