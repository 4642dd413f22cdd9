"""PSFConvolvedModel2D.evaluate with an oversampling window."""
from ..contract import *
from .images import *

SIZES = [{"A": 3, "B": 2, "size": 2, "p": 2, "m": 2, "f": 2, "ph": 3, "pw": 2}, {"A": 1, "B": 3, "size": 3, "p": 2, "m": 2, "f": 2, "ph": 2, "pw": 3}]


@unit("C14.window", sizes=SIZES, variants={"kind": ["plain", "psf", "psf+equal", "psf+factor"], "shape": ["wide", "tall"], "centre": ["num", "names", "swapped", "mixed"], "boxed": [False, True]},
      skip=lambda kind, shape, centre, boxed: centre == "num" and boxed)
def window(h, kind, shape, centre, boxed):
    h.mods = h.load().module(MM)
    if not h.bounded:
        A, B = z3.Int("A"), z3.Int("B")
        h.assume(A >= B if shape == "wide" else A < B)
    P = Pixels(h)
    size = h.dim("size", 1)
    if kind in ("plain", "psf"):
        f, pf, p = h.dim("f", 2), None, 1
    else:
        p = h.dim("p", 2)
        pf = SNum(T(p), FALSE, "i") if not isinstance(p, int) else p
        m_ = 1 if kind == "psf+equal" else h.dim("m", 2)
        f = p * m_ if isinstance(p, int) and isinstance(m_, int) else simp(T(p) * T(m_))
    has = kind != "plain"
    psf = h.array("psf", (h.dim("ph"), h.dim("pw"))) if has else None
    ps, vals = params(h, None, boxed)
    cx, cy = h.real("cx"), h.real("cy")
    n = lambda t: SNum(T(t), FALSE, "i") if not isinstance(t, int) else t
    x, y, wx, wy = {"num": (cx, cy, cx, cy), "names": ("p0", "p1", ps[0], ps[1]), "swapped": ("p1", "p0", ps[1], ps[0]), "mixed": (cx, "p1", cx, ps[1])}[centre]
    m = make(h, submodel(h), (x, y, n(size), n(f)), pf, psf)
    h.case = lambda ev: ev.d(kind="gauss", par=[9.0, ev.num(wx), ev.num(wy), 1.1, 1.7, .4] if centre != "num" else [9.0, ev.num(P.x0) + .7, ev.num(P.y0) + .4, 1.1, 1.7, .4],
                             psf={"__t__": [{"__t__": [h.sizes["ph"], h.sizes["pw"]]}, 3]} if has else None, pf=pf, over=None,
                             nx=P.A + 1, ny=P.B + 1, o=[ev.num(P.x0), ev.num(P.y0)], win={"__t__": [{"p0": "x_mean", "p1": "y_mean"}.get(x) if isinstance(x, str) else ev.num(x), {"p0": "x_mean", "p1": "y_mean"}.get(y) if isinstance(y, str) else ev.num(y), size, f]},
                             mode="grid", pa=0.0, moved=False, seed=0 if boxed else 1, frac=False)
    out = h.result(m.evaluate, P.x, P.y, *vals)
    want = spec(P, ps, 1, p, psf, None, window=(wx, wy, size, f))
    h.ensure_array("image", out, P.shape, lambda *k: want.get(num(P.b.get(*k)).t, num(P.a.get(*k)).t))
    h.unchanged(P.x, P.y, *([psf] if has else []))


@unit("C14.own-sub-pixels")
def own(h):
    """lemma: on a pixel image (integer origin x0) the window covers exactly the pixels ox <= x0 + I < ox + size, and the window
    sample it gives pixel I is that pixel's own sub-pixel: x0 + I + (a + 1/2)/f - 1/2"""
    x0, I, a, f, size = z3.Int("x0"), z3.Int("I"), z3.Int("a"), z3.Int("f"), z3.Int("size")
    cx = h.real("cx")
    h.assume(And(f >= 1, a >= 0, a < f, size >= 1))
    R = z3.ToReal
    ox = arr.round_(cx, 0) - SNum(core.n_floordiv(SNum(size, FALSE, "i"), num(2)).t, FALSE, "i")
    ci = core.to_int(arr.round_(ox - SNum(R(x0), FALSE, "f"), 0)).t
    h.goal("lemma.corner", R(ci) == ox.t - R(x0))
    h.goal("lemma.covered", And(I >= ci, I < ci + size) == And(R(x0 + I) >= ox.t, R(x0 + I) < ox.t + R(size)))
    h.goal("lemma.sample", ox.t + (R((I - ci) * f + a) + z3.Q(1, 2)) / R(f) - z3.Q(1, 2) == R(x0 + I) + (R(a) + z3.Q(1, 2)) / R(f) - z3.Q(1, 2))
