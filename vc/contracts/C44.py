"""The plot of a correction grid with a measurement."""
from ..contract import *
from .. import shim, table
from .common import *
from .C06 import same_state
from .C22 import Grid, load_corr, measured, obj_settings, AXES
from .C36 import args_of

ASSUMPTIONS = ["matplotlib draws what its drawing functions are given, on the axes they are called on"]
PLANES = [(0, 1), (0, 2), (1, 2)]


def is_col(h, name, got, col, at=None):
    if not isinstance(got, SArr) or got.ndim != 1:
        raise Unsupported("%s of type %s" % (name, type(got).__name__))
    h.ensure_array(name, got, col._shape, lambda *i: col.get(*i))


@unit("C44.plot", variants={"axs": ["new", "list"], "key": ["default", "r_eff"], "errs": ["", "flux"]}, budget=300)
def plot(h, axs, key, errs):
    """grid points, colours, the measurement and the connection to the nearest row, in each of the three planes"""
    mod, cls = load_corr(h)
    g = Grid(h)
    d = Data(h, errs)
    s = obj_settings(h)
    p = build(h, cls, d, s)
    pc = h.result(mod.PetrosianCorrection, g.table)
    kw = {} if key == "default" else {"cmap_key": key}
    if axs == "list":
        fig = shim.Plot(None, ("myfig",))
        mine = [Axes(i, fig) for i in range(3)]
        kw["axs"] = mine
    h.c.draws = []
    r = h.result(pc.plot_correction, p, **kw)
    got, y, z = measured(h, d, s)
    for x in got + [y, z]:
        h.assume(Not(x.nan))
    if not (isinstance(r, tuple) and len(r) == 2):
        return h.fail("figure-and-axes", "not a pair")
    rf, ra = r
    if axs == "list":
        h.goal("axes-returned", TRUE if len(ra) == 3 and all(a is b for a, b in zip(ra, mine)) and rf is fig else FALSE)
        roots = [("mine", i) for i in range(3)]
    else:
        h.goal("axes-returned", TRUE if getattr(rf, "_path", None) == ("fig",) and getattr(ra, "_path", None) == ("ax",) else FALSE)
        roots = [("ax", i) for i in range(3)]
    draws = list(h.c.draws)
    for path, a, kk in draws:
        if path[-1] in ("scatter", "plot") and path[:-1] not in roots:
            if path[:-1] in [("ax", "[]")]:
                raise Unsupported("axes that are not told apart")
            h.fail("other-axes", "%s" % (path,))
    cols = [g.cols[a] for a in AXES]
    colour = g.cols["n" if key == "default" else key]
    m = [None, y, z]
    ams = [v for k_, v in h.c.memo_lib.items() if k_[0] == "argmin"]
    if not ams:
        raise Unsupported("no nearest row")
    k = SNum(ams[-1].t, FALSE, "i")
    h.goal("nearest-row", Or(*[g.nearest(k.t, (x, y, z)) for x in got]) if len(got) > 1 else g.nearest(k.t, (got[0], y, z)))
    for root, (i, j) in zip(roots, PLANES):
        name = "%s-%s" % (AXES[i], AXES[j])
        pts = [(args_of(a, kk, "x", "y", "s", "c"), kk) for path, a, kk in draws if path == root + ("scatter",)]
        arrs = [q for q in pts if isinstance(q[0][0], SArr)]
        marks = [q for q in pts if not isinstance(q[0][0], SArr)]
        if len(arrs) != 1 or len(marks) != 1:
            return h.fail(name + ".points", "%d sets of points, %d marks" % (len(arrs), len(marks)))
        is_col(h, name + ".grid.x", arrs[0][0][0], cols[i])
        is_col(h, name + ".grid.y", arrs[0][0][1], cols[j])
        is_col(h, name + ".grid.colour", arrs[0][0][3], colour)
        mx, my = [num(scalar(v)) for v in marks[0][0][:2]]
        lines = [args_of(a, kk, "x", "y") for path, a, kk in draws if path == root + ("plot",)]
        if len(lines) != 1:
            return h.fail(name + ".connection", "%d connections" % len(lines))
        (x0, x1), (y0, y1) = lines[0]
        for v, w, t in ((mx, i, "mark.x"), (my, j, "mark.y"), (num(scalar(x0)), i, "connection.x"), (num(scalar(y0)), j, "connection.y")):
            if w == 0:
                h.goal("%s.%s" % (name, t), Or(*[eqn_(v, q) for q in got]))
            else:
                h.ensure_eq("%s.%s" % (name, t), v, m[w])
        h.ensure_eq(name + ".connection-end.x", x1, cols[i].get(k))
        h.ensure_eq(name + ".connection-end.y", y1, cols[j].get(k))
    if same_state(h, p, build(h, cls, d, s)):
        h.ok("object-unchanged")
    g.kept()
    h.unchanged(*d.list)


class Axes(shim.Plot):
    def __init__(self, i, fig):
        super().__init__(None, ("mine", i))
        self.__dict__["figure"] = fig

    def get_figure(self):
        return self.figure


@unit("C44.axes", variants={"n": [0, 1, 2, 4]})
def axes(h, n):
    """another number of axes is rejected"""
    mod, cls = load_corr(h)
    g = Grid(h)
    d = Data(h, "")
    s = obj_settings(h)
    p = build(h, cls, d, s)
    pc = h.result(mod.PetrosianCorrection, g.table)
    h.rejects(pc.plot_correction, p, axs=[Axes(i, shim.Plot(None, ("myfig",))) for i in range(n)])
    g.kept()
