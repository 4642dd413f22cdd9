"""PSFConvolvedModel2D: the oversample / psf_oversample configuration stays valid.

One assignment from an arbitrary valid configuration: with the constructor (C15.ctor) as the base case,
this is the induction step for any sequence of assignments.
"""
from ..contract import *
from .images import *

STATES = ["plain", "over", "psf", "psf+over", "psf+one", "psf+factor", "win", "psf+win", "psf+winf", "psf+wino"]
OVERS = ["None", "int", "float", "str", "npfloat", "dict", "t4", "l4", "named", "t3", "t5", "tsize", "tfactor", "tboth", "npsize"]
PFS = ["None", "int", "float", "str", "npfloat", "tuple"]


def II(t):
    return SNum(T(t), FALSE, "i") if not isinstance(t, int) else t


def state(h, kind):
    """a valid configuration (oversample, psf_oversample, psf?)"""
    psf = kind.startswith("psf")
    k = kind[4:] if psf and len(kind) > 3 else ("" if psf else kind)
    if k in ("", "plain"):
        return None, None, psf
    p, m = h.dim("p", 1), h.dim("m", 1)
    f = p * m if isinstance(p, int) else simp(T(p) * T(m))
    box = (h.real("cx"), h.real("cy"), h.int("size"))
    return {"over": (II(m), None), "one": (None, 1), "factor": (II(f), II(p)), "win": (box + (II(m),), None), "winf": (box + (II(f),), II(p)),
            "wino": (box + (II(m),), 1)}[k] + (psf,)


def overs(h, kind):
    """a value assigned to oversample: (value, its normal form, well formed)"""
    g, s = h.int("g"), h.int("s")
    x, y = h.real("nx"), h.real("ny")
    R = h.real("g_real")
    pos = lambda v: v.t > 0
    if kind == "None":
        return None, None, TRUE, 1
    if kind == "int":
        return g, g, pos(g), g
    if kind in ("float", "str", "npfloat", "dict"):
        return {"float": R, "npfloat": h.real("g_real", np=True), "str": "2", "dict": {}}[kind], None, FALSE, None
    t = {"t4": (x, y, s, g), "l4": (x, y, s, g), "named": ("p0", "p1", s, g), "t3": (x, y, s), "t5": (x, y, s, g, g), "tsize": (x, y, R, g), "tfactor": (x, y, s, R), "tboth": ("p0", y, R, R),
         "npsize": (x, y, h.real("g_real", np=True), g)}[kind]
    good = pos(g) if kind in ("t4", "l4", "named") else FALSE
    return (list(t) if kind == "l4" else t), t, good, g


def pfs(h, kind):
    g = h.int("g")
    if kind == "None":
        return None, TRUE, 1
    if kind == "int":
        return g, g.t > 0, g
    return {"float": h.real("g_real"), "npfloat": h.real("g_real", np=True), "str": "2", "tuple": (1, 2, 3, 4)}[kind], FALSE, None


def multiple(f, p):
    """f is a multiple of p (both positive)"""
    f, p = (SNum(z3.IntVal(v), FALSE, "i") if isinstance(v, int) else v for v in (f, p))
    return core.n_mod(f, p).t == 0


def factor(o):
    return 1 if o is None else o[3] if isinstance(o, tuple) else o


def one(p):
    return 1 if p is None else p


def same_cfg(h, name, got, want):
    if want is None or got is None:
        return h.ok(name) if got is want else h.fail(name, "%s instead of %s" % (type(got).__name__, type(want).__name__))
    if isinstance(want, tuple):
        if not isinstance(got, tuple) or len(got) != len(want):
            return h.fail(name, "not that tuple")
        for k, (a, b) in enumerate(zip(got, want)):
            same_cfg(h, "%s.%d" % (name, k), a, b)
        return
    if isinstance(want, str):
        return h.ok(name) if isinstance(got, str) and got == want else h.fail(name, "not that name")
    if isinstance(got, tuple) or isinstance(got, str):
        return h.fail(name, "%s" % type(got).__name__)
    h.ensure_eq(name, got, want)
    n = num(got)
    if num(want).k == "f":
        return
    h.ok(name + ".int") if n.k == "i" and not n.np else h.fail(name + ".int", "not an int")


def enc(ev, v):
    if isinstance(v, tuple):
        return {"__t__": [enc(ev, x) for x in v]}
    if isinstance(v, list):
        return [enc(ev, x) for x in v]
    if isinstance(v, dict) or v is None or isinstance(v, str):
        return v if not isinstance(v, dict) else "{}"
    if isinstance(v, SNum) and v.np:
        return {"__np__": ev.num(v)}
    return ev.num(v) if isinstance(v, SNum) else v


def case(h, o, p, psf, attr, v, ctor=False):
    h.case = lambda ev: ev.d(psf=psf, ctor=ctor, ops=[["oversample", enc(ev, o)], ["psf_oversample", enc(ev, p)]] + ([] if ctor else [[attr, enc(ev, v)]]))


SIZES = [{"p": 1, "m": 2, "ph": 2, "pw": 2}, {"p": 2, "m": 2, "ph": 2, "pw": 2}, {"p": 2, "m": 1, "ph": 2, "pw": 2}]


def model(h, o, p, psf):
    h.mods = h.load().module(MM)
    img = h.array("psf", (h.dim("ph"), h.dim("pw"))) if psf else None
    return make(h, submodel(h), o, p, img)


def step(h, m, attr, v, good, o, p):
    r = h.call(setattr, m, attr, v)
    if r.ok:
        h.goal("accepted-is-valid", good)
    else:
        h.goal("raised-is-invalid", Not(good))
        same_cfg(h, "kept.oversample", m.oversample, o)
        same_cfg(h, "kept.psf_oversample", m.psf_oversample, p)
    return r.ok


@unit("C15.oversample", sizes=SIZES, variants={"state0": STATES, "value": OVERS})
def over(h, state0, value):
    """assigning oversample in any valid configuration"""
    o, p, psf = state(h, state0)
    v, norm, good, g = overs(h, value)
    case(h, o, p, psf, "oversample", v)
    m = model(h, o, p, psf)
    if not (good is FALSE or z3.is_false(good)):
        good = And(good, multiple(g, one(p)))
    if step(h, m, "oversample", v, good, o, p):
        same_cfg(h, "stored", m.oversample, norm)
        same_cfg(h, "other", m.psf_oversample, p)


@unit("C15.psf_oversample", sizes=SIZES, variants={"state0": STATES, "value": PFS})
def pf(h, state0, value):
    """assigning psf_oversample in any valid configuration"""
    o, p, psf = state(h, state0)
    v, good, g = pfs(h, value)
    case(h, o, p, psf, "psf_oversample", v)
    m = model(h, o, p, psf)
    if value != "None":
        good = And(good, multiple(factor(o), g)) if psf and not z3.is_false(good) else FALSE
    if step(h, m, "psf_oversample", v, good, o, p):
        same_cfg(h, "stored", m.psf_oversample, v)
        same_cfg(h, "other", m.oversample, o)


@unit("C15.ctor", sizes=SIZES, variants={"over": OVERS, "pfv": ["None", "int", "float"], "psf": [True, False]})
def ctor(h, over, pfv, psf):
    """a constructed model has the given configuration, which is valid, or the constructor raises"""
    v, norm, good, g = overs(h, over)
    q = {"None": None, "int": h.int("q"), "float": h.real("q_real")}[pfv]
    case(h, v, q, psf, None, None, True)
    h.mods = h.load().module(MM)
    img = h.array("psf", (h.dim("ph"), h.dim("pw"))) if psf else None
    Sub = submodel(h)
    sub = Sub()
    r = h.call(h.mods.PSFConvolvedModel2D, sub, psf=img, oversample=v, psf_oversample=q)
    ok = good
    if pfv == "int":
        ok = And(good, q.t > 0, multiple(g, q)) if psf and not z3.is_false(good) else FALSE
    elif pfv == "float":
        ok = FALSE
    if not r.ok:
        return h.goal("raised-is-invalid", Not(ok))
    h.goal("accepted-is-valid", ok)
    same_cfg(h, "stored.oversample", r.value.oversample, norm)
    same_cfg(h, "stored.psf_oversample", r.value.psf_oversample, q)
