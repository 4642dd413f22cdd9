"""fit_model and fit_background: what the fitter is given."""
from ..contract import *
from .. import astro, fits, arr
from .images import submodel, NP
from .common import *

F = "petrofit.modeling.fitting"
SIZES = [{"ny": 2, "nx": 3, "wy": 2, "wx": 2}, {"ny": 2, "nx": 2, "wy": 2, "wx": 1}, {"ny": 3, "nx": 1, "wy": 1, "wx": 3}]
FITTERS = ["TRFLSQFitter", "LevMarLSQFitter", "LMLSQFitter", "LinearLSQFitter", "DogBoxLSQFitter", "custom", "default"]
STD = FITTERS[:3] + ["default"]
RACF = {"TRFLSQFitter": "trf", "LevMarLSQFitter": "lev", "LMLSQFitter": "lm", "DogBoxLSQFitter": "dogbox", "custom": "custom", "default": "trf", "LinearLSQFitter": "custom"}


class Custom(fits.Fitter):
    """a fitter that accepts no options"""
    _opts = frozenset()


def image(h, form):
    """(image passed, data, valid(j, i))"""
    ny, nx = h.dim("ny", 1), h.dim("nx", 1)
    kind = "i" if form.startswith("int") else "f"
    a = h.array("image", (ny, nx), kind, nan=kind == "f")
    nan = lambda j, i: num(a.get(j, i)).nan
    if form.endswith("masked"):
        mk = h.array("mask", (ny, nx), "b")
        return fits.MArr(a, mk), a, (lambda j, i: And(Not(nan(j, i)), Not(as_bool(mk.get(j, i)).t))), mk
    return a, a, (lambda j, i: Not(nan(j, i))), None


def model(h):
    m = submodel(h)()
    for k in range(NP):
        setattr(m, "p%d" % k, h.real("q%d" % k))
        m.fixed["p%d" % k] = h.bool("fix%d" % k)
        m.bounds["p%d" % k] = (h.real("lo%d" % k), h.real("hi%d" % k))
    return m


def spied(h, fitter):
    F_ = h.loader.mods["astropy.modeling.fitting"]
    base = Custom if fitter == "custom" else getattr(F_, "TRFLSQFitter" if fitter == "default" else fitter)
    return base


def same_as(h, name, m):
    for k in range(NP):
        p = "p%d" % k
        h.ensure_eq("%s.%s" % (name, p), getattr(m, p).value, h.real("q%d" % k))
        h.ensure_eq("%s.fixed.%s" % (name, p), m.fixed[p], h.bool("fix%d" % k))
        for j, t in enumerate(("lo", "hi")):
            h.ensure_eq("%s.bounds.%s" % (name, p), m.bounds[p][j], h.real("%s%d" % (t, k)))


def given(h, call, shape, valid, data, w):
    """the fitter is given exactly the valid pixels, each with its own coordinates, value and weight"""
    parts = {"x": call.x, "y": call.y, "values": call.z}
    if w is not None:
        parts["weights"] = call.weights
    elif call.weights is not None and not isinstance(call.weights, SSel):
        return h.fail("weights", "weights invented")
    for nm, v in parts.items():
        if not isinstance(v, SSel):
            if v is None or isinstance(v, (SArr, fits.MArr)):
                return h.fail(nm, "not the selected pixels")
            raise Unsupported("fitter argument %s of type %s" % (nm, type(v).__name__))
        if len(v.sel.shape) != 2:
            raise Unsupported("selection rank")
    sel = call.x.sel
    for nm, v in parts.items():
        if v.sel is not sel and v.sel.token() != sel.token():
            return h.fail(nm, "another selection of pixels than x")
    h.goal("shape", And(T(sel.shape[0]) == T(shape[0]), T(sel.shape[1]) == T(shape[1])))
    want = {"x": lambda j, i: SNum(T(i), FALSE, "i"), "y": lambda j, i: SNum(T(j), FALSE, "i"), "values": lambda j, i: num(data.get(j, i)), "weights": lambda j, i: num(w.get(j, i))}
    for ji in h.index(shape):
        h.goal("pixels", sel.cond(*ji) == valid(*ji))
        for nm, v in parts.items():
            g, q = num(v.el(*ji)), want[nm](*ji)
            h.goal(nm, Implies(valid(*ji), eqn(g, q)))
        if w is None and call.weights is not None:
            h.goal("weights", Implies(valid(*ji), num(call.weights.el(*ji)).t == 1))


@unit("C20.fit", sizes=SIZES, variants={"form": ["float", "masked", "int", "intmasked"], "weights": [True, False], "fitter": FITTERS, "opts": [False, True]},
      skip=lambda form, weights, fitter, opts: form.startswith("int") and (not weights or opts))
def fit(h, form, weights, fitter, opts):
    f = h.load().module(F).fit_model
    img, data, valid, mk = image(h, form)
    w = h.array("weights", data._shape) if weights else None
    m = model(h)
    cls = spied(h, fitter)
    made = []
    Spy = cls
    init = cls.__init__

    def rec(self, *a, **k):
        init(self, *a, **k)
        made.append(self)
    cls.__init__ = rec
    kw = {} if fitter == "default" else {"fitter": Spy}
    if weights:
        kw["weights"] = w
    o = {}
    if opts:
        o = {"maxiter": h.int("maxiter"), "epsilon": h.real("epsilon"), "acc": h.real("acc"), "estimate_jacobian": h.bool("jac")}
        kw.update(o, calc_uncertainties=h.bool("calc"))
    h.case = lambda ev: ev.d(image=ev.nd(data), mask=ev.nd(mk) if mk is not None else None, weights=ev.nd(w) if weights else None, how="fit", fitter=RACF[fitter],
                             set=dict(maxiter=7, epsilon=1e-4, acc=1e-3, estimate_jacobian=True) if opts else None, unc=True if opts else False, sigma=3.0, model=0)
    try:
        r = h.result(f, img, m, **kw)
    finally:
        cls.__init__ = init
    if not (isinstance(r, tuple) and len(r) == 2):
        return h.fail("result", "not (model, fitter)")
    used = [x for x in made if x.calls]
    if len(used) != 1 or len(used[0].calls) != 1:
        return h.fail("one-fit", "%d fitters called" % len(used))
    call = used[0].calls[0]
    h.goal("the-fitter-used", r[1] is used[0])
    h.goal("its-model", r[0] is call.out)
    given(h, call, data._shape, valid, data, w)
    # the settings
    h.ensure_eq("calc_uncertainties", as_bool(used[0].calc), as_bool(kw.get("calc_uncertainties", False)))
    if fitter in STD:
        M = h.loader.mods["astropy.modeling.optimizers"]
        want = {"maxiter": num(5000), "epsilon": num(M.DEFAULT_EPS), "acc": num(M.DEFAULT_ACC), "estimate_jacobian": False}
        want.update(o)
        for k, v in want.items():
            if k not in call.opts:
                h.fail("setting." + k, "not passed")
            elif k == "estimate_jacobian":
                h.ensure_eq("setting." + k, as_bool(call.opts[k]), as_bool(v))
            else:
                h.ensure_eq("setting." + k, call.opts[k], v)
    for n in m.param_names:
        h.ensure_eq("model-passed." + n, call.state[n][0], h.real("q" + n[1:]))
    same_as(h, "input-model", m)
    h.unchanged(data, *([w] if weights else []), *([mk] if mk is not None else []))


@unit("C20.weights-rejected", sizes=SIZES, variants={"form": ["float", "masked"], "rank": [1, 2, 3]})
def badw(h, form, rank):
    """weights of another shape are rejected"""
    f = h.load().module(F).fit_model
    img, data, valid, mk = image(h, form)
    wy, wx = h.dim("wy", 1), h.dim("wx", 1)
    sh = {1: (wx,), 2: (wy, wx), 3: (1, wy, wx)}[rank]
    if rank == 2:
        h.assume(Or(T(wy) != T(data._shape[0]), T(wx) != T(data._shape[1])))
    w = h.array("weights", sh)
    h.case = lambda ev: ev.d(image=ev.nd(data), mask=ev.nd(mk) if mk is not None else None, weights=ev.nd(w), how="badw", fitter="custom", set=None, unc=False, sigma=3.0, model=0)
    h.rejects(f, img, model(h), weights=w, fitter=Custom)


@unit("C20.background", sizes=SIZES, variants={"sigma": ["default", "given", "int", "None"], "fitter": ["default", "custom", "TRFLSQFitter"], "mdl": ["default", "given"], "calc": [False, True]})
def background(h, sigma, fitter, mdl, calc):
    """the fitter is given the pixels that are neither NaN nor outliers at that sigma"""
    f = h.load().module(F).fit_background
    img, data, _, _ = image(h, "float")
    kw = {}
    if sigma != "default":
        kw["sigma"] = {"given": h.real("sigma"), "int": h.int("sigma_i"), "None": None}[sigma]
        if sigma != "None":
            h.assume(num(kw["sigma"]).t > 0)
    s = num(3.0) if sigma == "default" else kw["sigma"]
    clip = None if s is None else fits.sigma_clip(data, s)
    valid = (lambda j, i: Not(num(data.get(j, i)).nan)) if s is None else (lambda j, i: And(Not(num(data.get(j, i)).nan), Not(as_bool(clip.mask_.get(j, i)).t)))
    cls = Custom if fitter == "custom" else getattr(h.loader.mods["astropy.modeling.fitting"], "LinearLSQFitter" if fitter == "default" else fitter)
    made, init = [], cls.__init__

    def rec(self, *a, **k):
        init(self, *a, **k)
        made.append(self)
    cls.__init__ = rec
    if fitter != "default":
        kw["fitter"] = cls
    m = model(h) if mdl == "given" else None
    if m is not None:
        kw["model"] = m
    if calc:
        kw["calc_uncertainties"] = True
    h.case = lambda ev: ev.d(image=ev.nd(data), mask=None, weights=None, how="bg", fitter="custom", set=None, unc=calc, sigma=ev.num(s) if s is not None else None, model=0)
    try:
        r = h.result(f, img, **kw)
    finally:
        cls.__init__ = init
    used = [x for x in made if x.calls]
    if len(used) != 1 or len(used[0].calls) != 1:
        return h.fail("one-fit", "%d fitters called" % len(used))
    call = used[0].calls[0]
    h.goal("the-fitter-used", r[1] is used[0])
    h.goal("its-model", r[0] is call.out)
    h.ensure_eq("calc_uncertainties", as_bool(used[0].calc), as_bool(calc))
    if m is None:
        h.goal("plane-by-default", type(call.model).__name__ == "Planar2D")
    else:
        same_as(h, "input-model", m)
    given(h, call, data._shape, valid, data, None)
    h.unchanged(data)
