"""A correction grid generated on several processes is the grid generated on one."""
from ..contract import *
from .. import table
from .common import *
from .C24 import CO, NROW, SHAPES, cfg, listed, table_of, row_stubs, sersic_results, MEAS, Seen, exact6
from . import C24

ASSUMPTIONS = ["C35: ProgressBar.map(f, items, multiprocess=k) returns the list of f(item) in the order of the items, f being evaluated in a process whose state is that of the caller",
               "C35: numerical callees are functions of their arguments (C24)"]
OVER = ["default", "int", "window"]


def cells(h):
    """the row function by contract: every cell is a function of the arguments"""
    f = [core.UF("cell%d" % k, core.RS, core.RS, core.RS) for k in range(NROW)]
    seen = []

    def one(args):
        a = list(args)
        if len(a) != 6:
            raise Unsupported("arguments of a row")
        seen.append(a)
        r, n = num(scalar(a[0])), num(scalar(a[1]))
        h.goal("row.numbers", And(Not(r.nan), Not(n.nan)))
        return [SNum(g(toreal(r.t), toreal(n.t)), FALSE, "f", True) for g in f]
    return one, seen


def same_rest(h, x, y):
    """PSF, sampling and PSF sampling of two rows"""
    for k, nm in ((2, "psf"), (3, "oversample"), (4, "psf_oversample")):
        a, b = x[k], y[k]
        h.goal("same-" + nm, a is b or a is not None and b is not None and same_value(h, a, b))
    p, q = x[5], y[5]
    h.goal("same-plot", TRUE if p is q or p == q else FALSE)


@unit("C35.grid", sizes=[{"count_n": 2, "count_r": 3, "kpsf": 3, "kpsf2": 3}], budget=100, variants={"kind": ["list", "array", "int"], "psf": [False, True], "over": ["default", "window"], "cpu": ["any", 2, True], "one": ["none", 1]},
      skip=lambda kind, psf, over, cpu, one: (psf, over) not in ((False, "default"), (True, "window")) or psf and (kind, one, cpu) != ("list", "none", "any") or kind == "int" and (one, cpu) != ("none", "any") or cpu is True and one == 1)
def grid(h, kind, psf, over, cpu, one):
    """lists of any length, any number of processes: the same number of rows, and row a * len(r_eff_list) + b is the same"""
    ps, o, po = cfg(h, psf, over)
    stub_, seen = cells(h)
    h.load({CO + "._generate_petrosian_correction": lambda real, m: stub_})
    f = h.loader.module(CO).generate_petrosian_sersic_correction
    nn, nr = h.dim("count_n", 1), h.dim("count_r", 1)
    ns, rs = h.array("n", nn), h.array("r", nr, "i" if kind == "int" else "f")
    kw = {} if over == "default" else {"oversample": o}
    if psf:
        kw.update(psf=ps, psf_oversample=po)
    k = h.int("n_cpu") if cpu == "any" else cpu
    if cpu == "any":
        h.assume(k.t >= 2)
    lists = lambda: (ns, rs) if kind == "array" else (listed(ns), listed(rs))
    tabs = []
    for c in ({} if one == "none" else {"n_cpu": 1}, {"n_cpu": k}):
        a, b = lists()
        m = len(seen)
        out = h.result(f, None, n_list=a, r_eff_list=b, **kw, **c)
        got = table_of(h, out)
        if got is None:
            return
        if len(seen) == m:
            raise Unsupported("no row is computed")
        tabs.append((got, seen[m:]))
    ((d1, n1), s1), ((d2, n2), s2) = tabs
    h.goal("columns", TRUE if list(n1) == list(n2) else FALSE)
    for y in s2:
        same_rest(h, s1[0], y)
    y1, y2 = getattr(d1, "_sym", None), getattr(d2, "_sym", None)
    size = lambda d, s: T(len(d) if s is None else s.n)
    h.goal("rows", size(d1, y1) == size(d2, y2))
    if (y1 is None or y2 is None) and h.sizes is None:
        raise Unsupported("rows of a table")
    at = lambda d, s, i, j: d[i * nr + j] if s is None else s.fn(T(i) * T(nr) + T(j))
    if y1 is None and (len(d1) != nn * nr or len(d2) != len(d1)):
        return
    for i, j in h.index((nn, nr)):
        p, q = at(d1, y1, i, j), at(d2, y2, i, j)
        if not (isinstance(p, list) and isinstance(q, list)):
            raise Unsupported("a row is not the list of one evaluation")
        h.goal("cells", TRUE if len(p) == len(q) == NROW else FALSE)
        of = lambda row: {tuple(c.get_id() for c in num(x).t.children()) for x in row} if all(z3.is_app(num(x).t) and num(x).t.decl().eq(core.UF("cell%d" % k, core.RS, core.RS, core.RS)) for k, x in enumerate(row)) else ()
        if len(of(p)) != 1 or len(of(q)) != 1:
            raise Unsupported("a row is not one evaluation")
        for nm, x, y in zip(("row.r_eff", "row.n"), num(p[0]).t.children(), num(q[0]).t.children()):
            h.goal(nm, x == y)
    h.unchanged(ns, rs, *([ps] if psf else []))


def state(h):
    """what the modules of the package keep between calls"""
    out = {}
    for m, mod in list(h.loader.mods.items()):
        if not m.startswith("petrofit"):
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith("__"):
                continue
            out[m, k] = kept(v)
    return out


def kept(v):
    if isinstance(v, dict):
        return (id(v), [(str(k), id(x)) for k, x in v.items()])
    if isinstance(v, (list, set)):
        return (id(v), [id(x) for x in v])
    if isinstance(v, SArr):
        return (id(v), len(getattr(v, "writes", ())))
    if callable(v) and hasattr(v, "__dict__"):
        d = {k: x for k, x in vars(v).items() if not k.startswith("__")}
        return (id(v), [(k, id(x)) for k, x in d.items()], [kept(x) for x in (getattr(v, "__defaults__", None) or ())])
    return id(v)


@unit("C35.row", budget=110, variants={"psf": [False, True], "over": ["default", "int"], "part": ["n<1", "n<2", "n>=2"]}, skip=lambda psf, over, part: (over != "default") != psf)
def row(h, psf, over, part):
    """computing a row keeps nothing for the next one, so that it does not matter which rows a process computed before"""
    S = Seen()
    h.load({**{k: mk(h) for k, mk in MEAS.items()}, **{k: mk(h) for k, mk in sersic_results(h).items()}, **row_stubs(h, S)})
    f = h.loader.module(CO)._generate_petrosian_correction
    ps, o, po = cfg(h, psf, over)
    n, r = h.real("n"), h.real("r_eff")
    h.assume(And(n.t > 0, r.t > 7, {"n<1": n.t < 1, "n<2": And(n.t >= 1, n.t < 2), "n>=2": n.t >= 2}[part]))
    args = [r, n, ps, o, po, False]
    before = state(h)
    h.call(f, args)
    after = state(h)
    changed = sorted(str(k) for k in before.keys() | after.keys() if before.get(k) != after.get(k))
    if changed:
        raise Unsupported("the module keeps %s" % changed[:3])
    h.ok("no-state-kept")
    h.goal("arguments", TRUE if len(args) == 6 and all(x is y for x, y in zip(args, [r, n, ps, o, po, False])) else FALSE)
    if psf:
        h.unchanged(ps)
