"""calculate_petrosian: the propagated errors."""
from ..contract import *
from .common import *
from .C01 import K, SZ, curve, first_same, P

UNITS[:] = [u for u in UNITS if not u.name.startswith("C01.")]


def err(A, L, ea, ef, p):
    """|P| sqrt((sI/I)^2 + (sM/M)^2) at index p >= 1"""
    q = sub(p, 1)
    z = num(0.0)
    a = lambda i: v(ea, i) if ea is not None else z
    f = lambda i: v(ef, i) if ef is not None else z
    dL, dA = v(L, p) - v(L, q), v(A, p) - v(A, q)
    sI2 = (f(q) ** 2 + f(p) ** 2) / dL ** 2 + (a(q) ** 2 + a(p) ** 2) / dA ** 2
    sM2 = (f(p) / v(L, p)) ** 2 + (a(p) / v(A, p)) ** 2
    return abs(P(A, L, p)) * core.f_sqrt(sI2 + sM2)


@unit("C02.errors", sizes=SZ[:2], variants={"which": ["both", "flux", "area"], "ka": ["f", "i"], "kl": ["f", "i"], "ke": ["f", "i"]}, budget=100)
def errors(h, which, ka, kl, ke):
    f = h.load().module(K).calculate_petrosian
    n = h.dim("n", 3)
    A, L = curve(h, ka, kl, n)
    ea = h.array("ea", n, ke) if which != "flux" else None
    ef = h.array("ef", n, ke) if which != "area" else None
    h.forall([n], lambda i: L.get(i).t != 0, [L.name])
    h.forall([n], lambda i: Implies(And(i >= 1, A.get(i).t != A.get(simp(i - 1)).t), L.get(i).t != L.get(simp(i - 1)).t), [L.name])
    h.case = lambda ev: ev.d(A=ev.nd(A), L=ev.nd(L), ea=ev.nd(ea) if ea is not None else None, ef=ev.nd(ef) if ef is not None else None, **{"as": "array"})
    out = h.result(f, A, L, ea, ef)
    h.goal("result-is-a-pair", isinstance(out, tuple) and len(out) == 2)
    E = out[1]
    if E is None:
        h.fail("error-array", "no error array is returned")
        return
    h.goal("length", T(asarr(E)._shape[0]) == T(n))
    h.goal("first-is-nan", num(E.get(0)).nan)
    for (k,) in h.index((n,)):
        if isinstance(k, int):
            for p in range(k + 1):
                g = And(A.get(p).t == A.get(k).t, *[A.get(i).t != A.get(k).t for i in range(p)])
                h.goal("definition" if p else "repeats-of-first-are-nan", Implies(g, eqn(num(E.get(k)), err(A, L, ea, ef, p)) if p else num(E.get(k)).nan))
        else:
            p = first_same(h, A, n, k)
            if bool(SBool(p >= 1)):
                h.c.touch(simp(p - 1))
                h.ensure_eq("definition", E.get(k), err(A, L, ea, ef, p))
            else:
                h.goal("repeats-of-first-are-nan", num(E.get(k)).nan)
    h.unchanged(A, L, *[x for x in (ea, ef) if x is not None])


@unit("C02.none", variants={"ka": ["f", "i"], "kl": ["f", "i"]})
def none(h, ka, kl):
    f = h.load().module(K).calculate_petrosian
    n = h.dim("n", 3)
    A, L = curve(h, ka, kl, n)
    out = h.result(f, A, L)
    h.goal("no-error-array", out[1] is None)
    h.unchanged(A, L)


@unit("C02.object", variants={"errs": ["flux", "area", "area+flux"], "k": ["f", "i"]})
def of_object(h, errs, k):
    """petrosian_err of a Petrosian object is that of its data"""
    cls = load_obj(h)
    d = Data(h, errs, k)
    o = build(h, cls, d, settings(h, "", "cubic"))
    want = d.petrosian(h)[1]
    h.ensure_array("petrosian_err", h.result(getattr, o, "petrosian_err"), want._shape, lambda *i: want.get(*i))
    h.unchanged(*d.list)
