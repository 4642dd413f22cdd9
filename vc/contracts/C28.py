"""hst_flux_to_abmag."""
from ..contract import *
from .common import *

U = "petrofit.utils"


@unit("C28.magnitude", sizes=[{"n": 1}, {"n": 3}], variants={"form": ["float", "int", "npfloat", "npint", "farray", "iarray", "f2d", "flist"]})
def mag(h, form):
    f = h.load().module(U).hst_flux_to_abmag
    lam, zp, piv = h.real("photflam"), h.real("photzpt"), h.real("photplam")
    h.assume(And(lam.t > 0, piv.t > 0))
    hdr = {"PHOTFLAM": lam, "PHOTZPT": zp, "PHOTPLAM": piv}
    zero = num(-2.5) * core.f_log(lam, "log10") + zp - num(5.0) * core.f_log(piv, "log10") + num(18.692)

    def want(x):
        x = core.to_float(x)
        v = num(-2.5) * core.f_log(x, "log10") + zero
        return SNum(v.t, Or(v.nan, Not(x.t > 0)), "f")
    if form in ("float", "int", "npfloat", "npint"):
        x = h.real("flux", np=form.startswith("np")) if form.endswith("float") else h.int("flux", np=form.startswith("np"))
        h.case = lambda ev: ev.d(form={"npfloat": "np"}.get(form, form), v={"__nd__": [float(ev.num(x))], "dtype": "float64", "shape": [1]}, k=0, lam=ev.num(lam), zp=ev.num(zp), piv=ev.num(piv))
        out = h.result(f, x, hdr)
        h.ensure_eq("definition", out, want(x))
        return
    if form == "flist":
        xs = [h.real("flux%d" % i) for i in range(3)]
        out = h.result(f, list(xs), hdr)
        h.goal("length", T(asarr(out)._shape[0]) == 3)
        for i in range(3):
            h.ensure_eq("definition", asarr(out).get(i), want(xs[i]))
        return
    n = h.dim("n", 1)
    shape = (n, n) if form == "f2d" else (n,)
    a = h.array("flux", shape, "i" if form == "iarray" else "f")
    h.case = lambda ev: ev.d(form={"farray": "array", "iarray": "iarray", "f2d": "a2"}[form], v=ev.nd(a), k=0, lam=ev.num(lam), zp=ev.num(zp), piv=ev.num(piv))
    out = h.result(f, a, hdr)
    h.ensure_array("definition", out, shape, lambda *i: want(a.get(*i)))
    h.unchanged(a)
