"""calculate_petrosian: the profile."""
from ..contract import *
from .common import *

SZ = [{"n": 3}, {"n": 4}, {"n": 5}]
K = "petrofit.petrosian.core"


def curve(h, ka, kl, n):
    A, L = h.array("A", n, ka), h.array("L", n, kl)
    positive(h, A, n)
    nondecreasing(h, A, n)
    h.case = lambda ev: ev.d(mode="real", A=ev.nd(A), L=ev.nd(L), **{"as": "array"})
    return A, L


def first_same(h, A, n, k):
    """ghost: p is the first index holding the area A[k]"""
    p = z3.Int(h.c.fresh("p"))
    a = lambda i: A.get(i).t
    h.assume(And(p >= 0, p <= T(k), a(p) == a(k)))
    h.c.uni([n], lambda i: Implies(i < p, a(i) != a(k)))
    h.c.touch(p)
    h.c.touch(p - 1)
    return p


def P(A, L, p):
    """(dL/dA)/(L/A) at index p >= 1"""
    q = sub(p, 1)
    dL, dA = v(L, p) - v(L, q), v(A, p) - v(A, q)
    return (dL / dA) / (v(L, p) / v(A, p))


@unit("C01.profile", sizes=SZ, variants={"ka": ["f", "i"], "kl": ["f", "i"]})
def profile(h, ka, kl):
    f = h.load().module(K).calculate_petrosian
    n = h.dim("n", 3)
    A, L = curve(h, ka, kl, n)
    out = h.result(f, A, L)
    h.goal("result-is-a-pair", isinstance(out, tuple) and len(out) == 2)
    h.goal("no-error-array", out[1] is None)
    R = out[0]
    h.goal("length", T(asarr(R)._shape[0]) == T(n))
    h.goal("first-is-nan", num(R.get(0)).nan)
    for (k,) in h.index((n,)):
        if isinstance(k, int):
            for p in range(k + 1):
                g = And(A.get(p).t == A.get(k).t, *[A.get(i).t != A.get(k).t for i in range(p)])
                if p == 0:
                    h.goal("repeats-of-first-are-nan", Implies(g, num(R.get(k)).nan))
                else:
                    h.goal("definition", Implies(g, eqn(num(R.get(k)), P(A, L, p))))
        else:
            p = first_same(h, A, n, k)
            h.goal("repeats-of-first-are-nan", Implies(p == 0, num(R.get(k)).nan))
            if bool(SBool(p >= 1)):
                h.ensure_eq("definition", R.get(k), P(A, L, p))
    h.unchanged(A, L)


@unit("C01.rejects", sizes=SZ, variants={"how": ["lengths", "short", "decreasing"]}, exact=True)
def rejects(h, how):
    f = h.load().module(K).calculate_petrosian
    n = h.dim("n", 1)
    m = n
    if how == "lengths":
        m = h.sizes["n"] + 1 if h.bounded else z3.Int("m")
        h.assume(And(T(m) >= 0, T(m) != T(n)))
    if how == "short":
        n = m = 2 if h.bounded else n
        h.assume(T(n) <= 2)
    A, L = h.array("A", n), h.array("L", m)
    if how == "decreasing":
        j = h.int("j")
        h.assume(And(j.t >= 1, j.t < T(n)))
        h.c.touch(j.t)
        h.c.touch(j.t - 1)
        h.assume(A.get(j.t).t < A.get(simp(j.t - 1)).t)
    h.rejects(f, A, L)
    h.unchanged(A, L)


@unit("C01.object", variants={"errs": ["", "flux", "area", "area+flux"], "k": ["f", "i"]})
def of_object(h, errs, k):
    """petrosian_list of a Petrosian object is that of its data"""
    cls = load_obj(h)
    d = Data(h, errs, k)
    o = build(h, cls, d, settings(h, "", "cubic"))
    want = d.petrosian(h)[0]
    h.ensure_array("petrosian_list", h.result(getattr, o, "petrosian_list"), want._shape, lambda *i: want.get(*i))
    h.unchanged(*d.list)


@unit("C01.object-rejects", sizes=SZ, variants={"how": ["radii", "areas", "fluxes", "area-errors", "flux-errors", "short"]}, exact=True)
def object_rejects(h, how):
    """a Petrosian object of arrays of unequal lengths or of fewer than three points is refused"""
    cls = h.load().module(PS).Petrosian
    n = h.dim("n", 1)
    m = n
    if how == "short":
        n = m = 2 if h.bounded else n
        h.assume(T(n) <= 2)
    else:
        m = h.sizes["n"] + 1 if h.bounded else z3.Int("m")
        h.assume(And(T(m) >= 0, T(m) != T(n)))
    size = lambda nm: m if nm == how else n
    r, A, L = h.array("r", size("radii")), h.array("A", size("areas")), h.array("L", size("fluxes"))
    kw = {}
    if how in ("area-errors", "flux-errors"):
        kw = {how.replace("-errors", "_err"): h.array("err", m)}
    h.case = lambda ev: ev.d(mode="object", how=how)
    h.rejects(cls, r, A, L, **kw)
