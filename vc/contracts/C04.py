"""fraction_to_r: the radius enclosing a fraction of the Petrosian flux."""
from ..contract import *
from .common import *

CALLEES = ["C26.search", "C26.resample"]      # their contracts are used here

SZ = [{"n": 4, "m": 4}, {"n": 4, "m": 6}]


def setup(h, kr, kl):
    n, m = h.dim("n", 4), h.dim("m", 1)
    R, L = h.array("r", n, kr), h.array("L", n, kl)
    if h.bounded:
        h.forall([n], lambda i: Implies(i >= 1, And(R.get(i).t > R.get(simp(i - 1)).t, R.get(simp(i - 1)).t >= 0)))
    return n, m, R, L


def spec_frac(h, out, f, R, L, rp, EF, rpe, eps, ee, kind, m):
    """the whole postcondition"""
    h.goal("result-is-a-pair", isinstance(out, (tuple, list)) and len(out) == 2)
    r, e = num(out[0]), num(out[1])
    lo, hi = core.to_float(arr.minmax(R, True)), core.to_float(arr.minmax(R, False))
    re = rp * eps
    inside = And(Not(re.nan), re.t >= lo.t, re.t <= hi.t)
    if not bool(SBool(inside)):
        h.goal("undefined-or-outside-is-nan", And(r.nan, e.nan))
        return
    k1 = "cubic" if kind is None else kind
    target = shim.interp1d(R, L, kind=k1).val(re) * (f / ee)
    threshold_radius(h, "radius", r, R, L, target, kind, m, True)
    within(h, "radius.within-measured-radii", r, R, kind, m, True)
    h.goal("error.undefined-if-radius-is", Implies(r.nan, e.nan))
    if EF is None:
        h.goal("no-error-without-flux-errors", e.nan)
        return
    low = SArr(L._shape, "f", lambda i: core.to_float(L.get(i)) - core.to_float(EF.get(i)))
    upp = SArr(L._shape, "f", lambda i: core.to_float(L.get(i)) + core.to_float(EF.get(i)))
    d = num(0.0) if rpe is None else ite(rpe.nan, num(0.0), rpe)
    clip = lambda x: ite(x.t < lo.t, lo, ite(x.t > hi.t, hi, x))
    s = (shim.interp1d(R, upp, kind=k1).val(clip(re + d)) - shim.interp1d(R, low, kind=k1).val(clip(re - d))) / 2
    half_spread(h, "error", e, r, (R, low, target + s), (R, upp, target - s), kind, m, True)


@unit("C04.radius", sizes=SZ, variants={"kind": ["cubic", "linear", None], "err": ["none", "flux", "flux+r"], "kr": ["f", "i"], "kl": ["f", "i"]}, budget=100)
def frac(h, kind, err, kr, kl):
    fn = load_petro(h).module(PS).fraction_to_r
    n, m, R, L = setup(h, kr, kl)
    EF = h.array("ef", n, kl) if err != "none" else None
    rp = h.maybe_nan("rp")
    rpe = h.maybe_nan("rpe") if err == "flux+r" else None
    f, eps, ee = h.real("f"), h.real("eps"), h.real("ee")
    h.assume(And(f.t > 0, eps.t > 0, ee.t > 0))
    h.case = lambda ev: ev.d(r=ev.nd(R), L=ev.nd(L), rp=ev.num(rp), ef=ev.nd(EF) if EF is not None else None, rpe=ev.num(rpe) if rpe is not None else None, f=ev.num(f), eps=ev.num(eps), ee=ev.num(ee), kind=kind, num=m, dflt=False)
    out = h.result(fn, f, R, L, rp, flux_err=EF, r_petrosian_err=rpe, epsilon=eps, epsilon_fraction=ee, interp_kind=kind, interp_num=I(m))
    spec_frac(h, out, f, R, L, rp, EF, rpe, eps, ee, kind, m)
    h.unchanged(R, L, *([EF] if EF is not None else []))


@unit("C04.defaults")
def defaults(h):
    """epsilon 2, epsilon fraction 0.99, cubic, 5000 samples unless given"""
    fn = load_petro(h).module(PS).fraction_to_r
    n = h.dim("n", 4)
    R, L = h.array("r", n), h.array("L", n)
    rp, f = h.maybe_nan("rp"), h.real("f")
    h.assume(f.t > 0)
    out = h.result(fn, f, R, L, rp)
    spec_frac(h, out, f, R, L, rp, None, None, num(2.0), num(0.99), "cubic", 5000)


@unit("C04.object", variants={"kind": ["cubic", "linear", None], "errs": ["", "flux", "area", "area+flux"], "k": ["f", "i"]})
def of_object(h, kind, errs, k):
    """the radii of a Petrosian object are those of its curve of growth under its settings"""
    cls = load_obj(h)
    d = Data(h, errs, k)
    s = settings(h, "", kind)
    o = build(h, cls, d, s)
    f = h.real("f")
    for tag, r, e, w in (("fraction", h.result(o.fraction_flux_to_r, f), h.result(o.fraction_flux_to_r_err, f), f),
                         ("total-flux", h.result(getattr, o, "r_total_flux"), h.result(getattr, o, "r_total_flux_err"), s["total_flux_fraction"]),
                         ("half-light", h.result(getattr, o, "r_half_light"), h.result(getattr, o, "r_half_light_err"), num(0.5)),
                         ("default-fraction", h.result(o.fraction_flux_to_r), h.result(o.fraction_flux_to_r_err), num(0.5)),
                         ("r50", h.result(getattr, o, "r_50"), h.result(getattr, o, "r_50_err"), num(0.5))):
        want = d.fraction(h, s, w)
        h.ensure_eq(tag + "-radius", r, want[0])
        h.ensure_eq(tag + "-error", e, want[1])
    h.unchanged(*d.list)
