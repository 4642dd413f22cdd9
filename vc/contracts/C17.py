"""PSFConvolvedModel2D and its sub-model: parameters, fixed flags and bounds.

Values, flags and bounds are arbitrary, so the read-back units cover every state a sequence of changes can reach.
"""
from ..contract import *
from .images import *

ARITY = [1, 2, 3, 7]
ARITIES = "sub-models with 1, 2, 3 and 7 parameters"
SIZES = [{"ph": 2, "pw": 2, "f": 2}]


def bound(h, nm, kind):
    return {"both": (h.real(nm + "_lo"), h.real(nm + "_hi")), "low": (h.real(nm + "_lo"), None), "none": (None, None)}[kind]


def sub(h, bk, np):
    """a sub-model with arbitrary values, flags and bounds: (instance, values, fixed, bounds)"""
    h.mods = h.load().module(MM)
    h.N = ["p%d" % k for k in range(np)]
    h.ALL = h.N + ["psf_pa"]
    s = submodel(h, np)()
    v, f, b = {}, {}, {}
    for n in h.N:
        v[n], f[n], b[n] = h.real(n), h.bool("fix_" + n), bound(h, n, bk)
        setattr(s, n, v[n])
        s.fixed[n] = f[n]
        s.bounds[n] = b[n]
    return s, v, f, b


def same(h, name, got, want):
    if isinstance(want, tuple):
        if not isinstance(got, tuple) or len(got) != 2:
            return h.fail(name, "not a pair")
        return [same(h, "%s.%d" % (name, k), a, c) for k, (a, c) in enumerate(zip(got, want))]
    if want is None or got is None:
        return h.ok(name) if want is got else h.fail(name, "%r" % (type(got).__name__,))
    h.ensure_eq(name, got, want)


def holds(h, tag, m, names, v, f, b, exact=True):
    """model m has exactly these parameters, in this order, with these values, flags and bounds"""
    got = tuple(m.param_names)
    h.ok(tag + ".names") if got == tuple(names) else h.fail(tag + ".names", "%s" % (got,))
    ps = m.parameters
    h.goal(tag + ".count", T(asarr(ps)._shape[0]) == len(names))
    for k, n in enumerate(names):
        same(h, tag + ".value." + n, getattr(m, n).value, v[n])
        same(h, tag + ".parameters." + n, asarr(ps).get(k), v[n])
        for what, w in (("fixed", f), ("bounds", b)):
            d = getattr(m, what)
            if n not in d:
                h.fail("%s.%s.%s" % (tag, what, n), "missing")
            else:
                same(h, "%s.%s.%s" % (tag, what, n), d[n], w[n])
    for what in ("fixed", "bounds"):
        d = set(getattr(m, what))
        h.ok("%s.%s.only" % (tag, what)) if d == set(names) else h.fail("%s.%s.only" % (tag, what), "%s" % sorted(d))


def full(v, f, b):
    return dict(v, psf_pa=num(0.0)), dict(f, psf_pa=False), dict(b, psf_pa=(None, None))


def wrap(h, s, psf=False, over=False, **kw):
    img = h.array("psf", (h.dim("ph"), h.dim("pw"))) if psf else None
    if over:
        kw["oversample"] = SNum(T(h.dim("f", 1)), FALSE, "i")
    return h.result(h.mods.PSFConvolvedModel2D, s, psf=img, **kw)


@unit("C17.wrap", sizes=SIZES, bound=ARITIES, variants={"np": ARITY, "bk": ["both", "low", "none"], "psf": [False, True], "over": [False, True]})
def w(h, np, bk, psf, over):
    """wrapping: every parameter, in order and with its value, then psf_pa; flags and bounds of the sub-model; the sub-model is unchanged"""
    s, v, f, b = sub(h, bk, np)
    h.case = lambda ev: ev.d(sub=1, ops=[], kw="", bad=False)
    m = wrap(h, s, psf, over)
    holds(h, "wrapper", m, h.ALL, *full(v, f, b))
    r = h.result(lambda: m.model)
    h.ok("read.type") if type(r) is type(s) else h.fail("read.type", type(r).__name__)
    holds(h, "read", r, h.N, v, f, b)
    holds(h, "original", s, h.N, v, f, b)


@unit("C17.given", sizes=SIZES, bound=ARITIES, variants={"np": ARITY, "what": ["fixed", "bounds", "both"], "n": ["first", "last"], "bk": ["both", "none"]})
def given(h, np, what, n, bk):
    """flags or bounds given to the constructor replace the sub-model's"""
    s, v, f, b = sub(h, bk, np)
    n = h.N[0 if n == "first" else -1]
    h.case = lambda ev: ev.d(sub=1, ops=[], kw=what, bad=False)
    kw = {}
    if what != "bounds":
        kw["fixed"] = {n: h.bool("given")}
    if what != "fixed":
        kw["bounds"] = {n: (h.real("g_lo"), h.real("g_hi"))}
    m = wrap(h, s, **kw)
    for q in h.N:
        same(h, "value." + q, getattr(m, q).value, v[q])
        if q == n or what == "bounds":
            same(h, "fixed." + q, m.fixed[q], kw["fixed"][q] if q == n and "fixed" in kw else f[q])
        if q == n or what == "fixed":
            same(h, "bounds." + q, m.bounds[q], kw["bounds"][q] if q == n and "bounds" in kw else b[q])
    h.result(lambda: m.model)
    holds(h, "original", s, h.N, v, f, b)


HOW = ["attributes", "array"]


def change(h, m, how, tag):
    """put the model in an arbitrary state; the values, flags and bounds it now has"""
    v, f, b = {}, {}, {}
    names = list(m.param_names)
    for n in names:
        v[n], f[n], b[n] = h.real(tag + n), h.bool(tag + "fix_" + n), bound(h, tag + n, "both")
    if how == "array":
        m.parameters = arr.from_list([v[n] for n in names]) if hasattr(arr, "from_list") else SArr((len(names),), "f", lambda i: v[names[i if isinstance(i, int) else core.conc_int(T(i))]])
    for n in names:
        if how != "array":
            setattr(m, n, v[n])
        m.fixed[n] = f[n]
        m.bounds[n] = b[n]
    return v, f, b


@unit("C17.read", sizes=SIZES, bound=ARITIES, variants={"np": ARITY, "how": HOW, "bk": ["both", "none"]})
def read(h, np, how, bk):
    """in any state the sub-model read back has the wrapper's values, flags and bounds, and nothing for psf_pa"""
    s, v, f, b = sub(h, bk, np)
    h.case = lambda ev: ev.d(sub=1, ops=[["val", 0, 2.5, False], ["fixed", 1, 1.0, True], ["bound", 1, 2.0, False], ["read", 0, 0.0, False]], kw="", bad=False)
    m = wrap(h, s)
    h.result(lambda: m.model)
    v1, f1, b1 = change(h, m, how, "new_")
    r = h.result(lambda: m.model)
    holds(h, "read", r, h.N, v1, f1, b1)
    holds(h, "wrapper", m, h.ALL, v1, f1, b1)
    holds(h, "original", s, h.N, v, f, b)


@unit("C17.edit", sizes=SIZES, bound=ARITIES, variants={"np": ARITY, "how": HOW, "who": ["read", "wrapper", "original"]})
def edit(h, np, how, who):
    """changing what was read, the wrapper, or the original leaves the other two as they are"""
    s, v, f, b = sub(h, "both", np)
    h.case = lambda ev: ev.d(sub=1, ops=[["val", 0, 2.5, False], ["edit", 0, 1.5, True], ["edit", 1, 2.5, True], ["read", 0, 0.0, False]], kw="", bad=False)
    m = wrap(h, s)
    v1, f1, b1 = change(h, m, how, "new_")
    r = h.result(lambda: m.model)
    change(h, {"read": r, "wrapper": m, "original": s}[who], how, "edit_")
    if who != "wrapper":
        holds(h, "wrapper", m, h.ALL, v1, f1, b1)
        holds(h, "again", h.result(lambda: m.model), h.N, v1, f1, b1)
    if who != "original":
        holds(h, "original", s, h.N, v, f, b)
    if who != "read":
        holds(h, "read", r, h.N, v1, f1, b1)


@unit("C17.rejects", variants={"what": ["wrapped", "1d"]})
def rejects(h, what):
    """a wrapped model and a model that is not two-dimensional are rejected"""
    h.mods = h.load().module(MM)
    h.case = lambda ev: ev.d(sub=0, ops=[], kw="", bad=True)
    Sub = submodel(h)
    if what == "wrapped":
        bad = h.result(h.mods.PSFConvolvedModel2D, Sub())
    else:
        bad = type("Sub1", (Sub,), {"n_inputs": 1})()
    h.rejects(h.mods.PSFConvolvedModel2D, bad)
