"""Queries of a correction grid, and writing and reading one."""
from ..contract import *
from .. import table
from .common import *
from .C22 import Grid, load_corr, NAMES, obj_settings

ASSUMPTIONS = ["reading a file that Table.write wrote in the same format gives the rows and columns that were written"]
NOTES = "unique values: defined values only (undefined ones are checked by running the code)"


def grid(h, k="f"):
    mod, cls = load_corr(h)
    g = Grid(h, False, k)
    return mod, cls, g, h.result(mod.PetrosianCorrection, g.table)


@unit("C37.filter", variants={"key": ["n", "p02", "c_r_99"], "value": ["real", "int"], "k": ["f", "i"]}, skip=lambda key, value, k: k == "i" and key != "p02")
def rows(h, key, value, k):
    """exactly the rows with the value, in their order, with every column"""
    mod, cls, g, pc = grid(h, k)
    v = h.real("value") if value == "real" else h.int("value")
    out = h.result(pc.filter_grid, key, v)
    if not isinstance(out, table.Table):
        return h.fail("a-table", "not a table")
    h.goal("columns", out.colnames == NAMES)
    for c in NAMES:
        col = out[c]
        if not isinstance(col, SSel):
            if col is g.cols[c]:
                return h.fail("rows", "the whole column")
            raise Unsupported("column of type %s" % type(col).__name__)
        if len(col.sel.shape) != 1:
            raise Unsupported("selection rank")
        h.goal("rows-of-the-grid", T(col.sel.shape[0]) == T(g.N))
        for (i,) in h.index((g.N,)):
            e = num(g.cols[key].get(i))
            h.goal("matching-rows.%s" % c, col.sel.cond(i) == And(Not(e.nan), toreal(e.t) == toreal(v.t)))
            h.goal("values.%s" % c, eqn_(col.el(i), g.cols[c].get(i)))
    g.kept()


@unit("C37.unique", variants={"key": ["n", "p02"], "k": ["f", "i"]}, skip=lambda key, k: k == "i" and key != "p02")
def unique(h, key, k):
    """every value of the column once, in increasing order"""
    mod, cls, g, pc = grid(h, k)
    col = g.cols[key]
    u = h.result(pc.unique_grid_values, key)
    if not isinstance(u, SArr) or u.ndim != 1:
        raise Unsupported("unique values of type %s" % type(u).__name__)
    m = u._shape[0]
    us, n = list(h.c.memo_lib.items()), g.N
    recs = [v for kk, v in us if kk[0] == "unique"]
    if len(recs) != 1:
        raise Unsupported("%d np.unique calls" % len(recs))
    _, first, inv, todo = recs[0]
    if todo:
        todo.pop()()
    for (a,) in h.index((m,)):
        for (b,) in h.index((m,)):
            first.get(a), first.get(b)
            h.goal("increasing", Implies(T(a) < T(b), toreal(num(u.get(a)).t) < toreal(num(u.get(b)).t)))
    for (a,) in h.index((m,)):
        i = first.get(a).t
        h.goal("occurs", And(i >= 0, i < T(n), toreal(num(col.get(simp(i))).t) == toreal(num(u.get(a)).t)))
    for (i,) in h.index((n,)):
        j = inv.get(i).t
        h.goal("every-value", And(j >= 0, j < T(m), toreal(num(u.get(simp(j))).t) == toreal(num(col.get(i)).t)))
    g.kept()


@unit("C37.keys")
def keys(h):
    mod, cls, g, pc = grid(h)
    k = h.result(getattr, pc, "grid_keys")
    h.goal("column-names", list(k) == NAMES)
    g.kept()


@unit("C37.file", variants={"fmt": [None, "ascii.ecsv", "fits"], "kw": [True, False]}, skip=lambda fmt, kw: fmt is None and not kw)
def file(h, fmt, kw):
    """a grid written and read back in the same format has the same rows and columns; writing changes nothing"""
    mod, cls, g, pc = grid(h)
    table.FILES.clear()
    a, k = (() if kw or fmt is None else (fmt,)), ({"file_format": fmt} if kw and fmt is not None else {})
    h.result(pc.write, "grid.file", *a, **k)
    if list(table.FILES) != ["grid.file"]:
        raise Unsupported("written elsewhere")
    h.goal("format-written", table.FILES["grid.file"][2] == fmt)
    g.kept()
    back = h.result(mod.PetrosianCorrection.read, "grid.file", *a, **k)
    h.goal("a-correction", isinstance(back, mod.PetrosianCorrection))
    h.goal("columns", list(h.result(getattr, back, "grid_keys")) == NAMES)
    h.goal("range-enforced", back.enforce_range is True)
    for c in NAMES:
        h.ensure_array("column.%s" % c, back.grid[c], (g.N,), lambda i: g.cols[c].get(i))
    g.kept()
