"""calculate_petrosian_r: the Petrosian radius and its error."""
from ..contract import *
from .common import *

CALLEES = ["C26.search", "C26.resample"]      # their contracts are used here

SZ = [{"n": 4, "m": 4}, {"n": 4, "m": 6}]


@unit("C03.radius", sizes=SZ, variants={"kind": ["cubic", "linear", None], "err": [False, True], "kr": ["f", "i"]})
def petro_r(h, kind, err, kr):
    f = load_petro(h).module(PS).calculate_petrosian_r
    n, m = h.dim("n", 4), h.dim("m", 1)
    R, Pl = h.array("r", n, kr), h.array("p", n, "f", nan=True)
    h.forall([n], lambda i: Implies(i >= 1, Not(num(Pl.get(i)).nan)), [Pl.name])
    E = h.array("err", n, "f", nan=True) if err else None
    if err:
        h.forall([n], lambda i: Implies(i >= 1, And(Not(num(E.get(i)).nan), E.get(i).t >= 0)), [E.name])
    if h.bounded:
        h.forall([n], lambda i: Implies(i >= 1, And(R.get(i).t > R.get(simp(i - 1)).t, R.get(simp(i - 1)).t >= 0)))
    eta = h.real("eta")
    h.case = lambda ev: ev.d(r=ev.nd(R), p=ev.nd(Pl), err=ev.nd(E) if err else None, eta=ev.num(eta), kind=kind, num=m, dflt=False, **{"as": "array"})
    out = h.result(f, R, Pl, petrosian_err=E, eta=eta, interp_kind=kind, interp_num=I(m))
    h.goal("result-is-a-pair", isinstance(out, tuple) and len(out) == 2)
    zero = SArr(R._shape, kr, lambda i: ite(T(i) == 0, num(0) if kr == "i" else num(0.0), R.get(i)))
    one = SArr(Pl._shape, "f", lambda i: ite(T(i) == 0, num(1.0), Pl.get(i)))
    r = num(out[0])
    threshold_radius(h, "radius", r, zero, one, eta, kind, m, False)
    if not err:
        h.goal("no-error-without-profile-errors", num(out[1]).nan)
    else:
        e0 = SArr(E._shape, "f", lambda i: ite(T(i) == 0, num(0.0), E.get(i)))
        up = SArr(E._shape, "f", lambda i: one.get(i) + e0.get(i))
        lo = SArr(E._shape, "f", lambda i: one.get(i) - e0.get(i))
        half_spread(h, "error", num(out[1]), r, (zero, up, eta), (zero, lo, eta), kind, m, False)
    h.unchanged(R, Pl, *([E] if err else []))


@unit("C03.defaults", variants={"err": [False, True]})
def defaults(h, err):
    """eta 0.2, cubic, 5000 samples unless given: same result as with those arguments"""
    f = load_petro(h).module(PS).calculate_petrosian_r
    n = h.dim("n", 4)
    R, Pl = h.array("r", n), h.array("p", n)
    E = h.array("err", n) if err else None
    calls = []
    out = h.result(f, R, Pl, petrosian_err=E)
    zero = SArr(R._shape, "f", lambda i: ite(T(i) == 0, num(0.0), R.get(i)))
    one = SArr(Pl._shape, "f", lambda i: ite(T(i) == 0, num(1.0), Pl.get(i)))
    threshold_radius(h, "radius", num(out[0]), zero, one, num(0.2), "cubic", 5000, False)


@unit("C03.object", variants={"kind": ["cubic", "linear", None], "errs": ["", "flux", "area", "area+flux"], "k": ["f", "i"]})
def of_object(h, kind, errs, k):
    """the Petrosian radius of an object is that of its profile under its settings"""
    cls = load_obj(h)
    d = Data(h, errs, k)
    s = settings(h, "", kind)
    o = build(h, cls, d, s)
    want = d.radius(h, s)
    h.ensure_eq("radius", h.result(getattr, o, "r_petrosian"), want[0])
    h.ensure_eq("radius-error", h.result(getattr, o, "r_petrosian_err"), want[1])
    h.unchanged(*d.list)
