"""Default bounds of the Sersic models."""
import itertools
from ..contract import *
from .common import *

MD = "petrofit.modeling.models"
NAMES = ["amplitude", "r_eff", "n", "ellip", "theta", "c_0", "x_0", "another"]
SIZES = [{}]


def wanted(h, kind):
    pi = h.loader.mods["numpy"].pi
    w = {"amplitude": (num(0), None), "r_eff": (num(1e-3), None), "n": (num(0.1), num(10)), "ellip": (num(0), num(0.99)), "theta": (-2 * num(pi), 2 * num(pi))}
    if kind == "gen":
        w["c_0"] = (num(0), num(2.0))
    return w


def fn(h, kind):
    m = h.load().module(MD)
    return m, (m.get_default_sersic_bounds if kind == "sersic" else m.get_default_gen_sersic_bounds)


def is_bounds(h, name, got, want):
    if not isinstance(got, dict):
        raise Unsupported("bounds of type %s" % type(got).__name__)
    h.goal(name + ".names", set(got) == set(want))
    for k, w in want.items():
        if k not in got:
            h.fail("%s.%s" % (name, k), "missing")
            continue
        g = got[k]
        if g is w:
            h.ok("%s.%s" % (name, k))
            continue
        if not isinstance(g, (tuple, list)) or len(g) != 2:
            h.fail("%s.%s" % (name, k), "not a pair")
            continue
        for i in (0, 1):
            n = "%s.%s.%s" % (name, k, ("lower", "upper")[i])
            if w[i] is None or g[i] is None:
                h.goal(n, g[i] is w[i])
            else:
                h.ensure_eq(n, g[i], w[i])


def state(m, f):
    """what a later call could depend on: module globals and default arguments that are containers"""
    out = {}
    for fun in {id(x): x for x in [f] + [v for v in vars(m).values() if callable(v) and hasattr(v, "__defaults__")]}.values():
        for i, v in enumerate(getattr(fun, "__defaults__", None) or ()):
            if isinstance(v, (dict, list, set)):
                out["%s(%d)" % (getattr(fun, "__name__", "?"), i)] = v
        for k, v in (getattr(fun, "__kwdefaults__", None) or {}).items():
            if isinstance(v, (dict, list, set)):
                out["%s(%s)" % (getattr(fun, "__name__", "?"), k)] = v
        for k, v in vars(fun).items() if hasattr(fun, "__dict__") else ():
            if isinstance(v, (dict, list, set)):
                out["%s.%s" % (getattr(fun, "__name__", "?"), k)] = v
    for k, v in vars(m).items():
        if isinstance(v, (dict, list, set)) and not k.startswith("__"):
            out[k] = v
    return out


def snap(s):
    return {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else set(v)) for k, v in s.items()}


def override(h, names):
    return {k: (h.real("lo_" + k), h.real("hi_" + k)) if i % 3 else (None, h.real("hi_" + k)) for i, k in enumerate(names)}


def case(h, ev, kind, ops):
    return ev.d(ops=[[kind, o and {k: [None if x is None else ev.num(x) for x in v] for k, v in o.items()}, s, t] for o, s, t in ops])


@unit("C40.defaults", sizes=SIZES, variants={"kind": ["sersic", "gen"], "how": ["default", "empty"]})
def defaults(h, kind, how):
    """the documented bounds, in a fresh dictionary, whatever happened to earlier results"""
    m, f = fn(h, kind)
    s = state(m, f)
    before = snap(s)
    h.case = lambda ev: case(h, ev, kind, [(None if how == "default" else {}, True, False)] * 2)
    w = wanted(h, kind)
    call = lambda: h.result(f) if how == "default" else h.result(f, {})
    a = call()
    is_bounds(h, "first", a, w)
    for k, v in state(m, f).items():
        h.goal("result-is-fresh.%s" % k, a is not v)
    a["n"] = (num(5), num(6))
    a["extra"] = (num(0), num(1))
    del a["ellip"]
    if snap(state(m, f)) != before:
        raise Unsupported("the module keeps state")      # caches are judged by running the code
    h.ok("no-state")
    b = call()
    h.goal("another-dictionary", b is not a)
    is_bounds(h, "again", b, w)
    other = m.get_default_gen_sersic_bounds if kind == "sersic" else m.get_default_sersic_bounds
    is_bounds(h, "other-model", h.result(other), wanted(h, "gen" if kind == "sersic" else "sersic"))


@unit("C40.override", sizes=SIZES, variants={"kind": ["sersic", "gen"], "key": [False, True], "mask": list(range(1 << len(NAMES)))},
      skip=lambda kind, key, mask: key and bin(mask).count("1") > 2)
def over(h, kind, key, mask):
    """overrides win, for every set of names and every value; the override is neither modified nor returned; later calls see none of it"""
    m, f = fn(h, kind)
    names = [k for i, k in enumerate(NAMES) if mask >> i & 1]
    o = override(h, names)
    keep = dict(o)
    before = snap(state(m, f))
    h.case = lambda ev: case(h, ev, kind, [(keep, True, True), (None, False, False)])
    w = wanted(h, kind)
    w.update(keep)
    a = h.result(f, override=o) if key else h.result(f, o)
    h.goal("override-kept", set(o) == set(keep) and all(o[k] is keep[k] for k in keep))
    h.goal("override-not-returned", a is not o)
    is_bounds(h, "bounds", a, w)
    if snap(state(m, f)) != before:
        raise Unsupported("the module keeps state")
    o["theta"] = (num(7), num(8))
    is_bounds(h, "override-changed-later", a, w)
    a["n"] = (num(5), num(6))
    is_bounds(h, "next-call", h.result(f), wanted(h, kind))
