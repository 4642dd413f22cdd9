"""Concentration index."""
from ..contract import *
from .common import *

SIG = ("fraction", "r_list", "flux_list", "r_petrosian", "flux_err", "r_petrosian_err", "epsilon", "epsilon_fraction", "interp_kind", "interp_num")


def frac_result(h, args, k):
    r, e = maybe(h, "rfrac"), maybe(h, "rfrac_err")
    h.assume(Or(r.nan, r.t > 0))
    return (r, e)


FRAC = pure_contract("fraction_to_r", frac_result)


@unit("C05.index", variants={"kind": ["cubic", "linear", None], "err": [False, True], "dflt": [False, True]})
def index(h, kind, err, dflt):
    fn = h.load({PS + ".fraction_to_r": FRAC(h)}).module(PS).calculate_concentration_index
    n, m = h.dim("n", 4), h.dim("m", 1)
    R, L = h.array("r", n), h.array("L", n)
    EF = h.array("ef", n) if err else None
    rp, rpe = h.maybe_nan("rp"), h.maybe_nan("rpe") if err else None
    f1, f2, eps, ee = h.real("f1"), h.real("f2"), h.real("eps"), h.real("ee")
    if dflt:
        out = h.result(fn, f1, f2, R, L, rp)
        EF, rpe, eps, ee, kind, num_ = None, None, num(2.0), num(0.99), "cubic", num(5000)
    else:
        num_ = I(m)
        out = h.result(fn, f1, f2, R, L, rp, flux_err=EF, r_petrosian_err=rpe, epsilon=eps, epsilon_fraction=ee, interp_kind=kind, interp_num=num_)
    call = lambda f: h.pure["fraction_to_r"](fraction=f, r_list=R, flux_list=L, r_petrosian=rp, flux_err=EF, r_petrosian_err=rpe, epsilon=eps, epsilon_fraction=ee, interp_kind=kind, interp_num=num_)[0]
    r1, r2 = call(f1), call(f2)
    h.goal("three-results", isinstance(out, (tuple, list)) and len(out) == 3)
    bad = Or(r1.nan, r2.nan)
    if bool(SBool(bad)):
        for i in range(3):
            h.goal("all-nan-if-either-undefined", num(out[i]).nan)
    else:
        h.ensure_eq("first-radius", out[0], r1)
        h.ensure_eq("second-radius", out[1], r2)
        h.ensure_eq("index", out[2], num(5.0) * core.f_log(r2 / r1, "log10"))
    h.unchanged(R, L, *([EF] if EF is not None else []))


@unit("C05.object", variants={"kind": ["cubic", "linear", None], "errs": ["", "flux", "area", "area+flux"], "k": ["f", "i"]})
def of_object(h, kind, errs, k):
    """the indices of a Petrosian object are those of its data under its settings; the named ones use 0.2/0.8 and 0.5/0.9"""
    cls = load_obj(h)
    d = Data(h, errs, k)
    s = settings(h, "", kind)
    o = build(h, cls, d, s)
    f1, f2 = h.real("f1"), h.real("f2")
    for tag, got, a, b in (("default", h.result(o.concentration_index), num(0.2), num(0.8)), ("given", h.result(o.concentration_index, f1, f2), f1, f2)):
        want = d.index(h, s, a, b)
        h.goal("three-results-" + tag, isinstance(got, (tuple, list)) and len(got) == 3)
        for i, n in enumerate(("first-radius", "second-radius", "index")):
            h.ensure_eq("%s-%s" % (tag, n), got[i], want[i])
    h.ensure_eq("c2080", h.result(getattr, o, "c2080"), d.index(h, s, num(0.2), num(0.8))[2])
    h.ensure_eq("c5090", h.result(getattr, o, "c5090"), d.index(h, s, num(0.5), num(0.9))[2])
    h.unchanged(*d.list)
