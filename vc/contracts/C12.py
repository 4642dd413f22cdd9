"""make_grid: the sampling grid."""
from ..contract import *
from .common import *

MM = "petrofit.modeling.models"


@unit("C12.grid", sizes=[{"size": 2, "factor": 3}, {"size": 3, "factor": 1}], variants={"ko": ["f", "i", "default"], "dflt": [False, True]})
def grid(h, ko, dflt):
    f = h.load().module(MM).make_grid
    n = h.dim("size", 1)
    q = 1 if dflt else h.dim("factor", 1)
    if ko == "default":
        ox, oy = num(0), num(0)
        kw = {}
    else:
        ox, oy = (h.real("ox"), h.real("oy")) if ko == "f" else (h.int("ox"), h.int("oy"))
        kw = {"origin": (ox, oy)}
    if not dflt:
        kw["factor"] = I(q)
    h.case = lambda ev: ev.d(bad=None, dflt=dflt, size=n, factor=q, origin=[ev.num(ox), ev.num(oy)])
    out = h.result(f, I(n), **kw)
    h.goal("two-arrays", isinstance(out, (list, tuple)) and len(out) == 2)
    N = n * q if isinstance(n, int) and isinstance(q, int) else simp(T(n) * T(q))
    fq = SNum(z3.ToReal(T(q)), FALSE, "f")
    pos = lambda o, k: core.to_float(o) + (SNum(z3.ToReal(T(k)), FALSE, "f") + 0.5) / fq - 0.5
    h.ensure_array("x-sample-positions", out[0], (N, N), lambda j, i: pos(ox, i))
    h.ensure_array("y-sample-positions", out[1], (N, N), lambda j, i: pos(oy, j))


@unit("C12.rejects", variants={"what": ["float", "str", "None", "npfloat"]})
def rejects(h, what):
    f = h.load().module(MM).make_grid
    bad = {"float": h.real("factor"), "str": "2", "None": None, "npfloat": h.real("factor", np=True)}[what]
    h.rejects(f, I(h.dim("size", 1)), origin=(h.real("ox"), h.real("oy")), factor=bad)
