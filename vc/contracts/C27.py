"""cutout_subtract."""
from ..contract import *
from .common import *

U = "petrofit.utils"


@unit("C27.subtract", sizes=[{"ny": 3, "nx": 4, "dy": 2, "dx": 3}, {"ny": 2, "nx": 2, "dy": 3, "dx": 4}], variants={"ki": ["f", "i"], "kt": ["f", "i"]})
def subtract(h, ki, kt):
    f = h.load().module(U).cutout_subtract
    ny, nx, dy, dx = (h.dim(a, 1) for a in ("ny", "nx", "dy", "dx"))
    im, tg = h.array("image", (ny, nx), ki), h.array("target", (dy, dx), kt)
    x, y = h.int("x"), h.int("y")
    if h.bounded:
        h.assume(And(x.t >= -5, x.t <= 8, y.t >= -5, y.t <= 8))
    h.case = lambda ev: ev.d(image=ev.nd(im), target=ev.nd(tg), x=ev.num(x), y=ev.num(y))
    out = h.result(f, im, tg, x, y)
    half = lambda d: z3.IntVal(d // 2) if isinstance(d, int) else T(d) / 2

    def want(j, i):
        J, I_ = simp(T(j) - y.t + half(dy)), simp(T(i) - x.t + half(dx))
        inside = And(J >= 0, J < T(dy), I_ >= 0, I_ < T(dx))
        return ite(inside, num(im.get(j, i)) - num(tg.get(J, I_)), num(im.get(j, i)))
    h.ensure_array("definition", out, (ny, nx), want)
    h.goal("a-new-array", out is not im)
    h.unchanged(im, tg)
    if isinstance(out, SArr):
        h.goal("does-not-share-memory", out.root() is not im.root() if callable(getattr(out, "root", None)) else TRUE)
