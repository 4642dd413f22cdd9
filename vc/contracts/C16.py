"""PSFConvolvedModel2D: evaluation does not depend on earlier evaluations."""
from ..contract import *
from .images import *

SIZES = [{"A1": 1, "B1": 1, "A2": 1, "B2": 1, "f1": 2, "f2": 2, "p": 2, "ph": 2, "pw": 2, "size": 2}, {"A1": 1, "B1": 1, "A2": 2, "B2": 1, "f1": 2, "f2": 3, "p": 2, "ph": 2, "pw": 2, "size": 2}]
BETWEEN = ["none", "clear", "disable", "toggle", "copy"]


def cfg(h, kind, tag):
    """(value of oversample, sampling factor, window)"""
    n = lambda t: SNum(T(t), FALSE, "i") if not isinstance(t, int) else t
    if kind == "one":
        return None, 1, None
    f = h.dim("f" + tag, 2)
    if kind == "over":
        return n(f), f, None
    cx, cy = h.real("cx" + tag), h.real("cy" + tag)
    size = h.dim("size", 1)
    return (cx, cy, n(size), n(f)), 1, (cx, cy, size, f)


def setup(h, first, second, psf, tall=None):
    h.mods = h.load().module(MM)
    h.P1, h.P2 = Pixels(h, "1"), Pixels(h, "2")
    o1, f1, w1 = cfg(h, first, "1")
    o2, f2, w2 = cfg(h, second, "2")
    if first == "win" and second == "win":
        h.assume(T(h.P1.A) >= T(h.P1.B))
        if tall is not None:
            h.assume(T(h.P2.A) < T(h.P2.B) if tall else T(h.P2.A) >= T(h.P2.B))
    h.psf = h.array("psf", (h.dim("ph"), h.dim("pw"))) if psf else None
    ps, vals = params(h, None, False)
    qs = [h.real("r%d" % k) for k in range(NP)]
    Sub = submodel(h)
    return Sub, (o1, f1, w1), (o2, f2, w2), ps, vals, qs


def between(h, m, what):
    if what == "clear":
        h.result(m.clear_cached_grid)
    if what in ("disable", "toggle"):
        m.cache_grid = False
    if what == "toggle":
        m.cache_grid = True
    return m.copy() if what == "copy" else m


def fcase(h, c1, c2, what):
    ov = lambda ev, c: None if c[0] is None else {"__t__": [ev.num(x) if isinstance(x, SNum) else x for x in c[0]]} if isinstance(c[0], tuple) else c[0]
    e = lambda ev, P: ["eval", ev.d(o=[ev.num(P.x0), ev.num(P.y0)], nx=P.A + 1, ny=P.B + 1, frac=0)]
    mid = {"none": [], "clear": [["clear", None]], "disable": [["cache", False]], "toggle": [["cache", False], ["cache", True]], "copy": [["copy", None]]}[what]
    h.case = lambda ev: ev.d(ops=[["over", ov(ev, c1)], e(ev, h.P1)] + mid + [["over", ov(ev, c2)], e(ev, h.P2)], psf=h.psf is not None, pf=None, start=True)


@unit("C16.second", sizes=SIZES, variants={"first": ["one", "over", "win"], "second": ["one", "over", "win"], "what": BETWEEN, "psf": [False, True]}, max_paths=600, budget=140,
      skip=lambda first, second, what, psf: psf and (what != "none" or first == second == "win"))
def second(h, first, second, what, psf):
    """the second of two evaluations gives the image its own coordinates, parameters and settings call for, for any first one"""
    Sub, c1, c2, ps, vals, qs = setup(h, first, second, psf)
    m = make(h, Sub, c1[0], None, h.psf)
    fcase(h, c1, c2, what)
    h.result(m.evaluate, h.P1.x, h.P1.y, *qs, num(0.0))
    m = between(h, m, what)
    m.oversample = c2[0]
    out = h.result(m.evaluate, h.P2.x, h.P2.y, *vals)
    P = h.P2
    want = spec(P, ps, c2[1], 1, h.psf, None, window=c2[2])
    h.ensure_array("image", out, P.shape, lambda *k: want.get(num(P.b.get(*k)).t, num(P.a.get(*k)).t))
    h.unchanged(h.P1.x, h.P1.y, h.P2.x, h.P2.y, *([h.psf] if psf else []))


@unit("C16.state", sizes=SIZES, variants={"first": ["one", "over", "win"], "second": ["one", "over", "win"], "cache": [True, False], "tall": [None, False, True]}, max_paths=600, budget=140,
      skip=lambda first, second, cache, tall: (tall is None) == (first == second == "win"))
def state(h, first, second, cache, tall):
    """after two evaluations the model holds what it holds after the second alone: with C16.second this covers histories of any length"""
    Sub, c1, c2, ps, vals, qs = setup(h, first, second, False, tall)
    m = make(h, Sub, c1[0], None, h.psf)
    k = make(h, Sub, c2[0], None, h.psf)
    m.cache_grid = cache
    k.cache_grid = cache
    fcase(h, c1, c2, "none" if cache else "disable")
    h.result(m.evaluate, h.P1.x, h.P1.y, *qs, num(0.0))
    m.oversample = c2[0]
    h.result(m.evaluate, h.P2.x, h.P2.y, *vals)
    h.result(k.evaluate, h.P2.x, h.P2.y, *vals)
    same_state(h, "state", m.__dict__, k.__dict__)


@unit("C16.reset", sizes=SIZES, variants={"first": ["one", "over", "win"], "how": ["clear", "disable"]})
def reset(h, first, how):
    """clearing or disabling the cache gives the state of a model that was never evaluated"""
    Sub, c1, c2, ps, vals, qs = setup(h, first, first, False)
    m = make(h, Sub, c1[0], None, h.psf)
    k = make(h, Sub, c1[0], None, h.psf)
    h.result(m.evaluate, h.P1.x, h.P1.y, *qs, num(0.0))
    between(h, m, how)
    if how == "disable":
        k.cache_grid = False
    st = {n: v for n, v in m.__dict__.items()}
    fresh = {n: v for n, v in k.__dict__.items()}
    for n in set(st) | set(fresh):
        same_state(h, "state." + n, st.get(n, getattr(m, n, None)), fresh.get(n, getattr(k, n, None)))
