"""radial_photometry and the aperture helpers."""
from ..contract import *
from .. import fits, phot, units, astro
from .common import *

P = "petrofit.photometry"
SIZES = [{"ny": 2, "nx": 2, "n": 1}, {"ny": 1, "nx": 2, "n": 2}, {"ny": 2, "nx": 1, "n": 3}]


def setup(h, err, mask, kind="f"):
    ny, nx = h.dim("ny", 1), h.dim("nx", 1)
    im = h.array("image", (ny, nx), kind, nan=kind == "f")
    e = h.array("error", (ny, nx), "f", nan=True) if err else None
    m = h.array("mask", (ny, nx), "b") if mask else None
    return (ny, nx), im, e, m


def geometry(h):
    x, y, el, th = h.real("pos_x"), h.real("pos_y"), h.real("elong"), h.real("theta")
    h.assume(el.t > 0)
    return x, y, el, th


def racase(h, ev, im, e, m, rs, pos, el, th, method="exact", plot=False, form="list", dflt=False):
    r = [ev.num(v) for v in rs] if isinstance(rs, list) else ev.nd(rs)["__nd__"]
    nd = lambda a, t=None: ev.nd(a) if a is not None else None
    I, M = ev.nd(im), nd(m)
    nan = lambda a: any(isinstance(v, dict) for row in a["__nd__"] for v in row)
    if nan(I) or e is not None and nan(ev.nd(e)):
        return None
    return ev.d(im=I, mask=M, err=nd(e), rs={"__nd__": [float(v) for v in r], "dtype": "float64", "shape": [len(r)]}, pos={"__t__": [ev.num(v) for v in pos]}, elong=1.0 if dflt else ev.num(el), theta=0.0 if dflt else ev.num(th), **{"as": form}, plot=plot, nan=0, dflt=dflt, method=method)


def r6(v):
    return core.to_float(arr.round_(v, 6))


def spec(im, e, m, pos, r, el, th, method):
    """flux, area and error of one ellipse, before rounding"""
    inv = None if m is None else SArr(m._shape, "b", lambda *i: SBool(Not(as_bool(m.get(*i)).t)))
    one_ = SArr(im._shape, "f", lambda *i: num(1.0))
    a = core.to_float(num(r))
    b = a / core.to_float(num(el))
    k = lambda kind, d: phot.apsum(kind, d, inv, pos, a, b, th, method)
    return k("sum", im), k("sum", one_), (k("err", e) if e is not None else NAN())


def check(h, out, n, want, name=""):
    if not (isinstance(out, tuple) and len(out) == 3):
        return h.fail(name + "three-results", "not three results")
    for j, nm in enumerate(("flux", "area", "error")):
        a = out[j]
        if not isinstance(a, SArr):
            return h.fail(name + nm, "not an array")
        h.goal(name + nm + ".length", And(z3.BoolVal(a.ndim == 1), T(a._shape[0]) == T(n)))
    for (i,) in h.index((n,)):
        w = want(i)
        h.goal(name + "flux.not-nan", Not(num(out[0].get(i)).nan))
        for j, nm in enumerate(("flux", "area", "error")):
            h.ensure_eq(name + nm, out[j].get(i), r6(w[j]))


METHODS = ["default", "exact", "center", "subpixel"]


@unit("C08.photometry", sizes=SIZES, variants={"err": [False, True], "mask": [False, True], "form": ["array", "list", "tuple", "iarray"], "kind": ["f", "i"], "method": METHODS, "plot": [False, True]},
      skip=lambda err, mask, form, kind, method, plot: (kind == "i" or method != "default") and form != "array" or plot and (method != "default" or form not in ("list", "array")))
def photometry(h, err, mask, form, kind, method, plot):
    """one entry per radius, in order: the unmasked weighted sum, the unmasked area, the propagated error"""
    f = h.load().module(P).radial_photometry
    shape, im, e, m = setup(h, err, mask, kind)
    x, y, el, th = geometry(h)
    n = h.dim("n", 1) if form != "tuple" else 2
    rs = h.array("radii", (n,), "i" if form == "iarray" else "f")
    h.forall([n], lambda i: rs.get(i).t > 0)
    if form == "tuple":
        arg = tuple(rs.get(i) for i in range(2))
    elif form == "list":
        arg = [rs.get(i) for i in range(n)] if isinstance(n, int) else SSeq.of(rs)
    else:
        arg = rs
    pos = (x, y)
    kw = {"elong": el, "theta": th}
    if err:
        kw["error"] = e
    if mask:
        kw["mask"] = m
    if method != "default":
        kw["method"] = method
    if plot:
        kw["plot"] = True
    me = {"default": "exact", "subpixel": "subpixel5"}.get(method, method)
    if method != "subpixel":
        h.case = lambda ev: racase(h, ev, im, e, m, rs, pos, el, th, me, plot, {"list": "list", "tuple": "tuple"}.get(form, "array"))
    keep = list(arg) if type(arg) is list else None
    W = lambda i: spec(im, e, m, pos, rs.get(i), el, th, me)
    o = h.call(f, im, pos, arg, **kw)
    if o.ok:
        check(h, o.value, n, W)
    elif isinstance(n, int):
        h.goal("raises-only-for-nan", Or(*[W(i)[0].nan for i in range(n)]))
    else:
        # the iteration that raised
        it = [l.k for l in h.c.loops_active]
        if len(it) != 1:
            return h.fail("no-exception", "raises %s: %s" % (type(o.exc).__name__, str(o.exc)[:80]))
        h.goal("raises-only-for-nan", And(it[0] >= 0, it[0] < T(n), W(it[0])[0].nan))
    for a in (im, e, m, rs):
        if a is not None:
            h.unchanged(a)
    if keep is not None:
        h.goal("frame.radii-list", len(keep) == len(arg) and all(p is q for p, q in zip(keep, arg)))


@unit("C08.defaults", sizes=SIZES[:1], variants={"posform": ["tuple", "list", "array"], "thetaform": ["default", "quantity"]})
def defaults(h, posform, thetaform):
    """circles unless an elongation is given; the centre as tuple, list or array; the angle with a unit"""
    f = h.load().module(P).radial_photometry
    shape, im, e, m = setup(h, False, False)
    x, y, el, th = geometry(h)
    r = h.real("r")
    h.assume(r.t > 0)
    pos = {"tuple": (x, y), "list": [x, y], "array": SArr((2,), "f", lambda i: x if isinstance(i, int) and i == 0 else y if isinstance(i, int) else arr.ite_el(T(i) == 0, x, y))}[posform]
    kw = {}
    if thetaform == "quantity":
        h.assume(z3.Real("pi") > 3)
        kw = {"theta": units.Quantity(th, h.loader.mods["astropy.units"].rad)}
    else:
        h.case = lambda ev: racase(h, ev, im, None, None, [r], (x, y), el, th, dflt=True)
    W = spec(im, None, None, (x, y), r, num(1.0), th if kw else num(0.0), "exact")
    o = h.call(f, im, pos, [r], **kw)
    if not o.ok:
        return h.goal("raises-only-for-nan", W[0].nan)
    check(h, o.value, 1, lambda i: W)
    h.unchanged(im)


@unit("C08.aperture")
def aperture(h):
    """the ellipse with this semi-major axis and elongation"""
    f = h.load().module(P).radial_elliptical_aperture
    x, y, el, th = geometry(h)
    r = h.real("r")
    h.assume(r.t > 0)
    ap = h.result(f, (x, y), r, el, th)
    h.goal("ellipse", isinstance(ap, phot.EllipticalAperture))
    h.ensure_eq("semi-major", ap.a, r)
    h.ensure_eq("semi-minor", ap.b, r / el)
    h.ensure_eq("angle", ap.theta, th)
    h.ensure_eq("x", ap.pos[0], x)
    h.ensure_eq("y", ap.pos[1], y)
    c = h.result(f, (x, y), r)
    h.ensure_eq("circle", c.b, r)
    h.ensure_eq("no-angle", c.theta, num(0))
