"""PetrosianCorrection: the nearest row and the range of the grid."""
from ..contract import *
from .. import table
from .common import *

CO = "petrofit.petrosian.correction"
NAMES = ["n", "r_eff", "p02", "p03", "p04", "p05", "u_r_50", "u_c2080", "c_r_50", "c_r_80", "c_r_99", "c_epsilon", "u_epsilon", "c_r_20"]
AXES = ("p02", "u_r_50", "u_c2080")
ASSUMPTIONS = ["grids have at least one row, no undefined value in the three looked-up columns, and a positive standard deviation in each of them (with a zero deviation the distance is undefined)"]


def ratio(h, x, y):
    """the constant x / y, if it is one"""
    p = prove.nf_of(h.c)
    try:
        return p.as_const(p.mul(p.of(x), p.inv(p.of(y))))
    except (prove.nf.TooBig, RecursionError, ZeroDivisionError, OverflowError):
        return None


def min_lemma(h, a, k, j, Dk, Dj):
    """a(k) <= a(j) implies Dk <= Dj, when the elements of `a` are (square roots of) one positive multiple of the
    sums of squares Dk and Dj: sqrt is monotone, sums of squares are not negative.  The multiple is found by the
    normal-form prover; the conclusion is added only when a(k) <= a(j) is proved."""
    ek, ej = num(a.get(k)), num(a.get(j))
    xk, xj = ek.t, ej.t
    root = 0
    is_root = lambda t: z3.is_app(t) and t.num_args() == 1 and t.decl().name() == "sqrt"
    if is_root(xk) and is_root(xj):
        root, xk, xj = 1, xk.arg(0), xj.arg(0)
    c1, c2 = ratio(h, xk, Dk), ratio(h, xj, Dj)
    if c1 is None or c1 != c2 or c1 <= 0:
        return
    h.c.fact(And(xk >= 0, xj >= 0))
    if root:
        h.c.fact((ek.t <= ej.t) == (xk <= xj))
    if proved(h, And(Not(ek.nan), Not(ej.nan), ek.t <= ej.t)):
        h.c.fact(Dk <= Dj)


class Grid:
    """a correction grid of any length; the column n identifies the row it is read from"""

    def __init__(self, h, q=False, k="f"):
        self.h = h
        self.N = h.dim("rows", 1)
        self.cols = {c: h.array("g_" + c, (self.N,), "f") for c in NAMES}
        self.inv = z3.Function("row_of_n", core.RS, core.IS)
        g = self.cols["n"]._fn

        def el(i):
            v = g(i)
            h.c.fact(self.inv(v.t) == T(i))
            return v
        self.cols["n"]._fn = el
        if k == "i":
            self.cols["p02"] = h.array("g_p02", (self.N,), "i")
        self.table = (table.QTable if q else table.Table)(self.cols)
        self.sd = [core.to_float(arr.std_(self.cols[a])) for a in AXES]
        for s in self.sd:
            h.assume(And(s.t > 0, Not(s.nan)))

    def row_of(self, value):
        """the row a value of column n was read from"""
        return simp(self.inv(num(value).t))

    def dist(self, i, m):
        """squared distance of row i"""
        s = num(0.0)
        for a, sd, x in zip(AXES, self.sd, m):
            u = (core.to_float(self.cols[a].get(i)) - x) / sd
            s = s + u * u
        return s

    def nearest(self, k, m):
        """row k exists and no row is closer"""
        h = self.h
        js = [j[0] for j in h.index((self.N,))]
        for key, am in list(h.c.memo_lib.items()):
            if key[0] == "argmin" and proved(h, am.t == k):
                k = am.t
                for j in js:
                    min_lemma(h, h.c.tokens[key[1]]["arr"], k, j, self.dist(k, m).t, self.dist(j, m).t)
        return And(k >= 0, k < T(self.N), *[self.dist(k, m).t <= self.dist(j, m).t for j in js])

    def inside(self, m):
        t = []
        for a, x in zip(AXES, m):
            c = self.cols[a]
            lo, hi = core.to_float(arr.minmax(c, True)), core.to_float(arr.minmax(c, False))
            t += [Not(x.nan), lo.t <= x.t, x.t <= hi.t]
        return And(*t)

    def kept(self):
        h = self.h
        h.unchanged(*self.cols.values())
        h.goal("grid-layout-unchanged", TRUE if list(self.table.cols) == NAMES and all(self.table.cols[c] is self.cols[c] for c in NAMES) and not self.table.written else FALSE)


def load_corr(h):
    h.load({k: mk(h) for k, mk in OBJ.items()})
    return h.loader.module(CO), h.loader.module(PS).Petrosian


def measured(h, d, s):
    """(candidates for the Petrosian radius at eta 0.2, half-light radius, C2080) of the object"""
    P = d.petrosian(h)
    kinds = {s["interp_kind"], "cubic"}
    got = []
    for snap, res in h.calls.get("calculate_petrosian_r", []):
        if same_value(h, snap["eta"], num(0.2)) and same_value(h, snap["r_list"], d.r) and same_value(h, snap["petrosian_list"], P[0]) and snap["interp_kind"] in kinds:
            if not any(same_value(h, res[0], g) for g in got):
                got.append(res[0])
    if not got:
        got = [h.pure["calculate_petrosian_r"](r_list=d.r, petrosian_list=P[0], petrosian_err=P[1], eta=num(0.2), interp_kind=s["interp_kind"], interp_num=s["interp_num"])[0]]
    return got, d.fraction(h, s, num(0.5))[0], d.index(h, s, num(0.2), num(0.8))[2]


def obj_settings(h, kind="cubic", **fixed):
    s = settings(h, "", kind)
    s.update(fixed)
    return s


@unit("C22.nearest", variants={"enforce": ["default", True, False, "set-on", "set-off"], "errs": ["", "flux"], "q": [False, True], "k": ["f", "i"]},
      skip=lambda enforce, errs, q, k: (q or k == "i") and (errs or enforce not in ("default", False)))
def nearest(h, enforce, errs, q, k):
    mod, cls = load_corr(h)
    g = Grid(h, q, k)
    d = Data(h, errs)
    s = obj_settings(h)
    p = build(h, cls, d, s)
    pc = h.result(mod.PetrosianCorrection, g.table, **({} if enforce == "default" else {"enforce_range": {"set-on": False, "set-off": True}.get(enforce, enforce)}))
    if enforce in ("set-on", "set-off"):
        h.result(setattr, pc, "enforce_range", enforce == "set-on")
    o = h.call(pc.estimate_n, p)
    got, y, z = measured(h, d, s)
    h.goal("one-radius-at-eta-0.2", TRUE if len(got) >= 1 else FALSE)
    on = enforce not in (False, "set-off")
    if on:
        ins = Or(*[g.inside((x, y, z)) for x in got])
        if not o.ok:
            h.goal("rejected-only-outside-the-grid", Not(And(*[g.inside((x, y, z)) for x in got])))
            g.kept()
            return
        h.goal("outside-or-undefined-is-rejected", ins)
    else:
        for x in got:
            h.assume(Not(x.nan))
        h.assume(And(Not(y.nan), Not(z.nan)))
        if not o.ok:
            h.fail("no-exception", "raises %s: %s" % (type(o.exc).__name__, str(o.exc)[:120]), o)
            return
        h.ok("no-exception")
    r = num(o.value)
    kk = g.row_of(r)
    h.ensure_eq("value-of-a-row", r, g.cols["n"].get(kk))
    h.goal("nearest-row", Or(*[g.nearest(kk, (x, y, z)) for x in got]) if len(got) > 1 else g.nearest(kk, (got[0], y, z)))
    g.kept()
    h.unchanged(*d.list)


@unit("C22.not-a-table", variants={"bad": ["str", "list", "dict", "array", "none", "row"]})
def bad(h, bad):
    mod, cls = load_corr(h)
    g = Grid(h)
    x = {"str": "grid.csv", "list": [[num(1), num(2)]], "dict": dict(g.cols), "array": h.array("m", (3, 3)), "none": None, "row": table.Row(g.table, num(0))}[bad]
    h.case = None
    h.rejects(mod.PetrosianCorrection, x)
