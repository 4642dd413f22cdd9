"""model_to_image: rendering at pixel coordinates."""
from ..contract import *
from .. import astro, fits
from .images import submodel, fval, NP
from .common import *

F = "petrofit.modeling.fitting"
SIZES = [{"nx": 2, "ny": 3}, {"nx": 3, "ny": 1}]
FORMS = ["tuple", "list", "int", "float", "npint", "npfloat", "fpair"]
CENTERS = ["none", "tuple", "list", "fpair", "npint"]


def size(h, form):
    nx, ny = h.dim("nx", 1), h.dim("ny", 1)
    I_ = lambda d, np=False: SNum(T(d), FALSE, "i", np)
    R_ = lambda d, np=False: SNum(z3.ToReal(T(d)), FALSE, "f", np)
    if form in ("tuple", "list"):
        s = (I_(nx), I_(ny))
        return (list(s) if form == "list" else s), nx, ny
    if form == "fpair":
        return (R_(nx), I_(ny)), nx, ny
    return {"int": I_(nx), "float": R_(nx), "npint": I_(nx, True), "npfloat": R_(nx, True)}[form], nx, nx


def center(h, form):
    if form == "none":
        return None
    if form == "fpair":
        return (h.real("ctr_x"), h.real("ctr_y"))
    a, b = h.int("ctr_x", np=form == "npint"), h.int("ctr_y", np=form == "npint")
    return [a, b] if form == "list" else (a, b)


def origin(c, nx, ny):
    if c is None:
        return num(0), num(0)
    half = lambda d: core.n_floordiv(SNum(T(d), FALSE, "i"), num(2))
    return num(c[0]) - half(nx), num(c[1]) - half(ny)


def enc(ev, v):
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        r = [enc(ev, x) for x in v]
        return {"__t__": r} if isinstance(v, tuple) else r
    if isinstance(v, SNum) and v.np and v.k == "i":
        return ev.num(v)
    return ev.num(v)


@unit("C21.image", sizes=SIZES, variants={"sform": FORMS, "cform": CENTERS})
def image(h, sform, cform):
    """every pixel is the model at its own coordinates, for any size and centre"""
    f = h.load().module(F).model_to_image
    s, nx, ny = size(h, sform)
    c = center(h, cform)
    m = submodel(h)()
    ps = []
    for k in range(NP):
        v = h.real("q%d" % k)
        setattr(m, "p%d" % k, v)
        ps.append(v)
    h.case = lambda ev: ev.d(size=enc(ev, s), center=enc(ev, c), mode="center", factor=1, m=0, bad=None)
    out = h.result(f, m, s, **({} if c is None else {"center": c}))
    x0, y0 = origin(c, nx, ny)
    at = lambda o, k: core.to_float(o) + SNum(z3.ToReal(T(k)), FALSE, "f")
    h.ensure_array("pixels", out, (ny, nx), lambda j, i: fval(at(x0, i), at(y0, j), ps))
    for k in range(NP):
        h.ensure_eq("model.p%d" % k, getattr(m, "p%d" % k).value, ps[k])


@unit("C21.origin", sizes=SIZES, variants={"sform": FORMS, "cform": CENTERS[1:]})
def orig(h, sform, cform):
    f = h.load().module(F).model_center_to_image_origin
    s, nx, ny = size(h, sform)
    c = center(h, cform)
    h.case = lambda ev: ev.d(size=enc(ev, s), center=enc(ev, c), mode="center", factor=1, m=0, bad=None)
    o = h.result(f, c, s)
    h.goal("pair", isinstance(o, (tuple, list)) and len(o) == 2)
    for k, w in enumerate(origin(c, nx, ny)):
        h.ensure_eq("origin", o[k], w)


@unit("C21.mode", sizes=SIZES, variants={"mode": ["center", "linear_interp", "oversample", "integrate", "default"], "cform": CENTERS, "fform": ["int", "float", "default"]})
def mode(h, mode, cform, fform):
    """model, mode and factor reach discretize_model unchanged, with the ranges of the image"""
    f = h.load().module(F).model_to_image
    s, nx, ny = size(h, "tuple")
    c = center(h, cform)
    m = submodel(h)()
    fits.RENDERS.clear()
    kw = {}
    if mode != "default":
        kw["mode"] = mode
    if fform != "default":
        kw["factor"] = h.int("factor") if fform == "int" else h.real("factor_real")
    if c is not None:
        kw["center"] = c
    h.case = lambda ev: ev.d(size=enc(ev, s), center=enc(ev, c), mode=mode if mode in ("oversample", "linear_interp") else "center", factor=enc(ev, kw["factor"]) if fform == "int" else 2, m=0, bad=None)
    out = h.result(f, m, s, **kw)
    if len(fits.RENDERS) != 1:
        return h.fail("one-rendering", "%d calls" % len(fits.RENDERS))
    r = fits.RENDERS[0]
    x0, y0 = origin(c, nx, ny)
    h.goal("model", r.model is m)
    h.goal("mode", r.mode == (mode if mode != "default" else "center"))
    h.ensure_eq("factor", r.factor, kw.get("factor", num(1)))
    h.ensure_eq("x-origin", r.x0, x0)
    h.ensure_eq("y-origin", r.y0, y0)
    h.goal("x-size", T(r.nx) == T(nx))
    h.goal("y-size", T(r.ny) == T(ny))
    h.goal("result", out is r.out)


BAD = ["frac", "fracx", "fracy", "npfrac", "str", "None", "triple", "one", "empty", "dict"]


@unit("C21.size-rejected", exact=True, variants={"what": BAD, "cform": ["none", "tuple"]})
def bad_size(h, what, cform):
    f = h.load().module(F).model_to_image
    n, x = h.int("n"), h.real("x")
    h.assume(And(n.t > 0, x.t > 0, x.t != z3.ToReal(core.toint_floor(x.t))))
    s = {"frac": x, "fracx": (x, n), "fracy": [n, x], "npfrac": h.real("x", np=True), "str": "5", "None": None, "triple": (n, n, n), "one": (n,), "empty": (), "dict": {}}[what]
    h.case = lambda ev: ev.d(size=5, center=None, mode="center", factor=1, m=0, bad={"frac": "2.5", "npfrac": "npfrac", "fracx": "fracx", "fracy": "frac", "str": "str", "None": "none", "triple": "triple", "one": "one"}.get(what, "one"))
    h.rejects(f, submodel(h)(), s, center=center(h, cform))


@unit("C21.center-rejected", sizes=SIZES, variants={"what": ["three", "number", "str", "one", "dict"], "sform": ["tuple", "int"]})
def bad_center(h, what, sform):
    f = h.load().module(F).model_to_image
    s, nx, ny = size(h, sform)
    a = h.int("ctr_x")
    c = {"three": (a, a, a), "number": a, "str": "ab", "one": [a], "dict": {}}[what]
    h.case = lambda ev: ev.d(size=5, center=None, mode="center", factor=1, m=0, bad={"three": "c3", "number": "cint", "str": "cstr", "one": "c1"}.get(what, "c3"))
    h.rejects(f, submodel(h)(), s, center=c)
