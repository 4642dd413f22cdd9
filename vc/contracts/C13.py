"""PSFConvolvedModel2D.evaluate: sub-pixel means, PSF convolution, binning."""
from ..contract import *
from .images import *

SIZES = [{"A": 2, "B": 1, "f": 2, "p": 2, "m": 2, "ph": 3, "pw": 2}, {"A": 1, "B": 2, "f": 3, "p": 2, "m": 2, "ph": 2, "pw": 3}]


@unit("C13.image", sizes=SIZES, variants={"kind": ["plain", "over", "psf", "psf+over", "psf+equal", "psf+factor"], "shape": ["wide", "tall"], "pa": ["0", "rot"], "boxed": [False, True]},
      skip=lambda kind, pa, **k: pa == "rot" and not kind.startswith("psf"))
def image(h, kind, shape, pa, boxed):
    h.mods = h.load().module(MM)
    if not h.bounded:
        A, B = z3.Int("A"), z3.Int("B")
        h.assume(A >= B if shape == "wide" else A < B)
    P = Pixels(h)
    over, f, pf, p, has = config(h, kind)
    psf = h.array("psf", (h.dim("ph"), h.dim("pw"))) if has else None
    ang = None
    if pa == "rot":
        ang = h.real("pa")
        h.assume(ang.t != 0)
    ps, vals = params(h, ang, boxed)
    m = make(h, submodel(h), over, pf, psf)
    h.case = lambda ev: ev.d(kind="gauss", par=[9.0, ev.num(P.x0) + .7, ev.num(P.y0) + .4, 1.1, 1.7, .4], psf={"__t__": [{"__t__": [h.sizes["ph"], h.sizes["pw"]]}, 3]} if has else None, pf=pf, over=over,
                             nx=P.A + 1, ny=P.B + 1, o=[ev.num(P.x0), ev.num(P.y0)], win=None, mode="grid", pa=0.0 if ang is None else 30.0, moved=False, seed=0 if boxed else 1, frac=False)
    out = h.result(m.evaluate, P.x, P.y, *vals)
    want = spec(P, ps, f, p, psf, ang)
    h.ensure_array("image", out, P.shape, lambda *k: want.get(num(P.b.get(*k)).t, num(P.a.get(*k)).t))
    h.unchanged(P.x, P.y, *([psf] if has else []))


@unit("C13.no-psf", sizes=[{"A": 2, "B": 1}, {"A": 1, "B": 2}], variants={"one": [False, True]})
def plain(h, one):
    """oversampling 1 and no PSF: the sub-model at the pixel centres"""
    h.mods = h.load().module(MM)
    P = Pixels(h)
    ps, vals = params(h, None, False)
    m = make(h, submodel(h), num(1) if one else None, None, None)
    out = h.result(m.evaluate, P.x, P.y, *vals)
    h.ensure_array("centres", out, P.shape, lambda *k: fval(P.x.get(*k), P.y.get(*k), ps))


@unit("C13.sub-pixels")
def subpixels(h):
    """lemma: sample J*f + a of the grid of factor f is sub-pixel a of pixel J: x0 + J + (a + 1/2)/f - 1/2, for 0 <= a < f"""
    f, J, a, x0 = z3.Int("f"), z3.Int("J"), z3.Int("a"), z3.Real("x0")
    h.assume(And(f >= 1, a >= 0, a < f, J >= 0))
    R = z3.ToReal
    h.goal("lemma.position", x0 + (R(J * f + a) + z3.Q(1, 2)) / R(f) - z3.Q(1, 2) == x0 + R(J) + (R(a) + z3.Q(1, 2)) / R(f) - z3.Q(1, 2))
    h.goal("lemma.within-pixel", And((R(a) + z3.Q(1, 2)) / R(f) - z3.Q(1, 2) > -z3.Q(1, 2), (R(a) + z3.Q(1, 2)) / R(f) - z3.Q(1, 2) < z3.Q(1, 2)))
