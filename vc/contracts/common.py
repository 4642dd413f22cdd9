"""Shared preconditions and callee contracts."""
import time
import z3
from ..core import SNum, SBool, And, Or, Not, Implies, If, TRUE, FALSE, num, as_bool, T, simp, toreal, NAN
from .. import arr, core, shim, prove
from ..contract import scalar, bt, stub
from ..arr import SArr, asarr


def I(x):
    return SNum(T(x) if not isinstance(x, int) else z3.IntVal(x), FALSE, "i")


def ite(c, a, b):
    return arr.ite_el(simp(core.as_bool(c).t) if not isinstance(c, z3.BoolRef) else simp(c), num(a), num(b))


def v(a, i):
    """element i as a float number"""
    return core.to_float(a.get(i)) if not isinstance(i, z3.ExprRef) else core.to_float(a.get(simp(i)))


def nondecreasing(h, A, n):
    h.forall([n, n], lambda i, j: Implies(i <= j, A.get(i).t <= A.get(j).t), [A.name, A.name])


def positive(h, A, n):
    h.forall([n], lambda i: A.get(i).t > 0, [A.name])


def at(t):
    return t if isinstance(t, int) else simp(t)


def sub(i, k):
    return i - k if isinstance(i, int) else simp(i - k)


def exists(h, name, cands, fn):
    """prove fn(w) for one of the candidate witnesses"""
    cands = list(cands)
    t0 = time.time()
    if h.bounded and cands:
        return h.goal(name, Or(*[bt(fn(w)) for w in cands]))
    for w in cands:
        st, be, m, why = prove.prove(h.c, simp(bt(fn(w))))
        if st == "discharged":
            h.run.record(h.cur + name, st, be, time.time() - t0, "", None)
            return True
    h.run.record(h.cur + name, "unknown", "z3", time.time() - t0, "no witness among %d" % len(cands), None)
    return False


def first_index(h, n, reach):
    """ghost: the first index below n with reach(i), or n (exists by well-ordering)"""
    if isinstance(n, int):
        f = z3.IntVal(n)
        for i in range(n - 1, -1, -1):
            f = If(reach(i), z3.IntVal(i), f)
        return simp(f)
    f = z3.Int(h.c.fresh("first"))
    h.assume(And(f >= 0, f <= T(n), Implies(f < T(n), reach(f))))
    h.c.uni([n], lambda j: Implies(T(j) < f, Not(reach(j))))
    h.c.touch(f)
    return f


def reach(a, value, growing):
    val = num(value)

    def r(i):
        e = v(a, i)
        return And(Not(e.nan), Not(val.nan), toreal(e.t) >= toreal(val.t) if growing else toreal(e.t) <= toreal(val.t))
    return r


def gap(a, value, i):
    d = toreal(v(a, i).t) - toreal(num(value).t)
    return If(d >= 0, d, -d)


def search_contract(h):
    """callee contract of closest_value_index (proved in C26): records (value, array, growing, index)"""
    h.searches = []

    def f(value, array, growing=False):
        value = scalar(value) if not isinstance(value, SNum) else value
        a = asarr(array)
        n = a._shape[0]
        g = bool(growing)
        r = reach(a, value, g)
        p = h.c.fresh_int("first")
        k = h.c.fresh_int("closest")
        found = z3.Bool(h.c.fresh("found"))
        got = bool(SBool(found))
        if not got:
            h.c.uni([n], lambda j: Not(r(j)))
            h.searches.append((value, a, g, None, None))
            return None
        h.assume(And(p >= 0, p < T(n), r(p), k >= 0, k <= p))
        h.c.uni([n], lambda j: And(Implies(T(j) < p, Not(r(j))), Implies(T(j) <= p, gap(a, value, k) <= gap(a, value, j))))
        h.c.touch(p)
        h.c.touch(k)
        h.searches.append((value, a, g, k, p))
        return SNum(k, FALSE, "i", True)
    return stub(f)


def interp_spec(x, y, num_, kind):
    """the interpolation grid and the values on it"""
    x, y = asarr(x), asarr(y)
    if kind is None:
        return x, y
    f = shim.interp1d(x, y, kind=kind)
    n = x._shape[0]
    N = ite(T(n) > T(num_), I(n), I(T(num_))) if not (isinstance(n, int) and isinstance(num_, int)) else I(max(n, num_))
    Nt = simp(N.t)
    m = core.concrete(N)
    m = Nt if m is None else m
    lo, hi = core.to_float(f.lo), core.to_float(f.hi)
    X = SArr((m,), "f", lambda i: lo + SNum(z3.ToReal(T(i)), FALSE, "f") * ((hi - lo) / SNum(z3.ToReal(T(m) - 1), FALSE, "f", True)))
    X._linspace = (lo, hi, m)
    return X, SArr((m,), "f", lambda i: f.val(X.get(i)))


def interp_contract(h):
    """callee contract of get_interpolated_values (proved in C26)"""
    def f(x, y, num=5000, kind="cubic"):
        return interp_spec(x, y, core.num(num).t if isinstance(num, SNum) else num, kind)
    return stub(f)


PS = "petrofit.petrosian.core"
STUBS = {"petrofit.utils.closest_value_index": search_contract, "petrofit.utils.get_interpolated_values": interp_contract}


def load_petro(h):
    return h.load({k: s(h) for k, s in STUBS.items()})


def records(h, growing):
    return [s for s in h.searches if s[2] == growing]


def proved(h, goal, ms=400):
    """quick attempt while looking for a witness"""
    run = h.c.run
    keep = run.cvc5
    run.cvc5 = False
    try:
        g = simp(bt(goal))
        return prove.prove(h.c, g, ms=min(ms, run.prove_ms), splits=0)[0] == "discharged"
    finally:
        run.cvc5 = keep


def proved_fully(h, goal):
    return prove.prove(h.c, simp(bt(goal)))[0] == "discharged"


def same_search(h, rec, Y, value):
    """is this recorded call a search for `value` on Y (so that its contract speaks about Y)"""
    val, a = rec[0], rec[1]
    if a is None or len(a._shape) != 1:
        return False
    if not proved(h, eqn_(val, value)):
        return False
    if not proved(h, T(a._shape[0]) == T(Y._shape[0])):
        return False
    return all(proved(h, eqn_(a.get(*i), Y.get(*i))) for i in h.index(Y._shape))


def found(h, X, Y, value, growing, k, p, r):
    """the definition at a generic sample, for witness (k, p)"""
    N = X._shape[0]
    rc = reach(Y, value, growing)
    out = [And(p >= 0, p < T(N), rc(p), k >= 0, k <= p), eqn_(r, X.get(k))]
    for (j,) in h.index((N,)):
        out.append(And(Implies(T(j) < p, Not(rc(T(j)))), Implies(T(j) <= p, gap(Y, value, k) <= gap(Y, value, T(j)))))
    return And(*out)


def eqn_(a, b):
    a, b = num(a), num(b)
    return And(a.nan == b.nan, Or(a.nan, toreal(a.t) == toreal(b.t)))


def never(h, Y, value, growing):
    rc = reach(Y, value, growing)
    return And(*[Not(rc(T(j))) for (j,) in h.index((Y._shape[0],))])


def proved_never(h, Y, value, growing):
    """no sample of Y reaches the value"""
    for rec in reversed(records(h, growing)):
        if rec[3] is None and same_search(h, rec, Y, value):
            return True
    return proved_fully(h, never(h, Y, value, growing))


def proved_found(h, X, Y, value, growing, rest):
    """some (k, p) satisfies the definition and rest(X[k])"""
    recs = [r for r in reversed(records(h, growing)) if r[3] is not None]
    for rec in recs:
        k = rec[3]
        if proved(h, rest(X.get(k))) and same_search(h, rec, Y, value):
            return True
    for rec in recs:
        if proved_fully(h, And(rest(X.get(rec[3])), found(h, X, Y, value, growing, rec[3], rec[4], X.get(rec[3])))):
            return True
    return False


def conclude(h, name, ok, fallback, t0):
    """record a proof found by the ladder above, else let the solvers decide the plain statement"""
    if ok:
        h.run.record(h.cur + name, "discharged", "z3", time.time() - t0, "", None)
        return True
    if h.bounded:
        return h.goal(name, fallback())
    h.run.record(h.cur + name, "unknown", "z3", time.time() - t0, "no recorded search is a witness", None)
    return False


def threshold_at(h, name, X, Y, value, growing, r):
    """r is X at the threshold crossing of `value` on Y, NaN iff it is never reached"""
    r = num(r)
    t0 = time.time()
    if bool(SBool(r.nan)):
        return conclude(h, name + ".nan-only-if-never-reached", proved_never(h, Y, value, growing), lambda: never(h, Y, value, growing), t0)
    ok = proved_found(h, X, Y, value, growing, lambda e: eqn_(r, e))
    return conclude(h, name + ".at-closest-sample", ok, lambda: Or(*[And(found(h, X, Y, value, growing, s[3], s[4], r)) for s in records(h, growing) if s[3] is not None]), t0)


def linspace_lemma(h, lo, hi, m, k):
    """0 <= k <= m-1, m >= 2, lo <= hi  =>  lo <= lo + k (hi-lo)/(m-1) <= hi: proved as an obligation, then used at (lo, hi, m, k)"""
    t0 = time.time()
    if not getattr(h.run, "linspace_done", False):
        a, b, q, x, y = z3.Reals("ll_a ll_b ll_q ll_x ll_y")        # q*y = b-a, y = m-1 >= 1, 0 <= x <= y
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(a <= b, y >= 1, x >= 0, x <= y, q * y == b - a, Not(And(a <= a + x * q, a + x * q <= b)))
        ok = s.check() == z3.unsat
        h.run.record("lemma.linspace-range", "discharged" if ok else "unknown", "z3", time.time() - t0, "", None)
        h.run.linspace_done = True
    lo, hi = toreal(num(lo).t), toreal(num(hi).t)
    mm, kk = z3.ToReal(T(m)), z3.ToReal(T(k))
    e = lo + kk * ((hi - lo) / (mm - 1))
    h.assume(Implies(And(mm >= 2, kk >= 0, kk <= mm - 1, lo <= hi), And(lo <= simp(e), simp(e) <= hi)))


def within(h, name, r, R, kind, num_, growing):
    """a radius found on the interpolation grid lies within the range of R"""
    r = num(r)
    lo, hi = core.to_float(arr.minmax(R, True)), core.to_float(arr.minmax(R, False))
    if kind is not None:
        X, _ = interp_spec(R, R, num_, kind)
        for rec in records(h, growing):
            if rec[3] is not None:
                linspace_lemma(h, lo, hi, X._shape[0], rec[3])
    h.goal(name, Or(r.nan, And(r.t >= lo.t, r.t <= hi.t)))


def threshold_radius(h, name, r, x, y, value, kind, num_, growing):
    """r = x at the threshold crossing of y on the interpolation grid, NaN iff never reached"""
    X, Y = interp_spec(x, y, num_, kind)
    return threshold_at(h, name, X, Y, value, growing, r)


def half_spread(h, name, e, r, upper, lower, kind, num_, growing):
    """e = (ru - rl)/2 for the radii on the two shifted curves; NaN if r or either is undefined"""
    e, r = num(e), num(r)
    t0 = time.time()
    if bool(SBool(r.nan)):
        return h.goal(name + ".nan-without-radius", e.nan)
    (Xu, Yu), vu = interp_spec(upper[0], upper[1], num_, kind), upper[2]
    (Xl, Yl), vl = interp_spec(lower[0], lower[1], num_, kind), lower[2]
    if bool(SBool(e.nan)):
        ok = proved_never(h, Yu, vu, growing) or proved_never(h, Yl, vl, growing)
        return conclude(h, name + ".nan-only-if-a-shifted-radius-is-undefined", ok, lambda: Or(never(h, Yu, vu, growing), never(h, Yl, vl, growing)), t0)
    recs = [s for s in records(h, growing) if s[3] is not None]
    ups = [s for s in recs if same_search(h, s, Yu, vu)]
    los = [s for s in recs if same_search(h, s, Yl, vl)]
    half = lambda a, b: eqn_(e, (num(Xu.get(a[3])) - num(Xl.get(b[3]))) / 2)
    ok = any(proved(h, half(a, b)) for a in ups for b in los)
    full = lambda a, b: And(found(h, Xu, Yu, vu, growing, a[3], a[4], Xu.get(a[3])), found(h, Xl, Yl, vl, growing, b[3], b[4], Xl.get(b[3])), half(a, b))
    if not ok and not h.bounded:
        ok = any(proved_fully(h, full(a, b)) for a in (ups or recs) for b in (los or recs))
    return conclude(h, name + ".half-the-spread", ok, lambda: Or(*[full(a, b) for a in recs for b in recs]), t0)


INFS = (float("inf"), float("-inf"))


def same_value(h, a, b):
    """are two argument values provably the same"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return type(a) is type(b) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not isinstance(a, SArr):
        return len(a) == len(b) and all(same_value(h, x, y) for x, y in zip(a, b))
    if type(a) is float and type(b) is float and (a == b or a in INFS or b in INFS):
        return a == b
    try:
        a = asarr(a) if isinstance(a, SArr) else scalar(a)
        b = asarr(b) if isinstance(b, SArr) else scalar(b)
    except core.Unsupported:
        return a is b
    if isinstance(a, SArr) != isinstance(b, SArr):
        return False
    if isinstance(a, SArr):
        return len(a._shape) == len(b._shape) and arr.token(a) == arr.token(b)
    if isinstance(a, SBool) or isinstance(b, SBool):
        return proved(h, as_bool(a).t == as_bool(b).t)
    g = simp(eqn_(a, b))
    if core.is_true(g) or core.is_false(g):
        return core.is_true(g)
    r = h.c._check(Not(g))
    if r == z3.sat:
        return False
    return r == z3.unsat or proved(h, g, 120)


def pure_contract(name, result, ignore=()):
    """callee contract: the result is a function of the arguments (equal arguments, equal results).
    `result(h, args, k)` makes the result of the k-th distinct call."""
    def make(h):
        calls = h.__dict__.setdefault("calls", {}).setdefault(name, [])

        def f(**args):
            key = {k: x for k, x in args.items() if k not in ignore}
            for old, res in calls:
                if old.keys() == key.keys() and all(same_value(h, old[k], key[k]) for k in key):
                    return res
            snap = {k: (x.copy() if isinstance(x, SArr) else x) for k, x in key.items()}
            res = result(h, args, len(calls))
            calls.append((snap, res))
            return res
        h.__dict__.setdefault("pure", {})[name] = f
        return stub(f)
    return make


def maybe(h, name, sort="f"):
    """a fresh number that may be undefined"""
    n = h.c.fresh(name)
    return SNum(z3.Real(n), z3.Bool(n + "_isnan"), "f", True)


# ------------------------------------------------------------ Petrosian objects

SETTINGS = ("eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "interp_kind", "interp_num")


def curve_result(h, args, k):
    """calculate_petrosian: new arrays of the curve's length; an error array iff errors are given"""
    A = asarr(args["area_list"])
    n = A._shape[0]
    P = h.array(h.c.fresh("petro"), n, "f", nan=True)
    if args["area_err"] is None and args["flux_err"] is None:
        return (P, None)
    return (P, h.array(h.c.fresh("petro_err"), n, "f", nan=True))


def radius_result(h, args, k):
    """calculate_petrosian_r: a radius that may be undefined, not negative, undefined error without errors"""
    r, e = maybe(h, "rp"), maybe(h, "rp_err")
    if args["petrosian_err"] is None:
        h.assume(e.nan)
    return (r, e)


def fraction_result(h, args, k):
    """fraction_to_r: undefined or within the measured radii; undefined error without flux errors or radius"""
    r, e = maybe(h, "rfrac"), maybe(h, "rfrac_err")
    R = asarr(args["r_list"])
    lo, hi = core.to_float(arr.minmax(R, True)), core.to_float(arr.minmax(R, False))
    h.assume(Or(r.nan, And(r.t >= lo.t, r.t <= hi.t)))
    h.assume(Implies(r.nan, e.nan))
    if args["flux_err"] is None:
        h.assume(e.nan)
    return (r, e)


def concentration_result(h, args, k):
    return (maybe(h, "c1"), maybe(h, "c2"), maybe(h, "c12"))


OBJ = {PS + ".calculate_petrosian": pure_contract("calculate_petrosian", curve_result),
       PS + ".calculate_petrosian_r": pure_contract("calculate_petrosian_r", radius_result),
       PS + ".fraction_to_r": pure_contract("fraction_to_r", fraction_result),
       PS + ".calculate_concentration_index": pure_contract("calculate_concentration_index", concentration_result)}


class Data:
    """the arrays of a Petrosian object"""

    def __init__(self, h, errs, k="f"):
        n = self.n = h.dim("n", 4)
        self.r, self.A, self.L = h.array("r", n, k), h.array("A", n, k), h.array("L", n, k)
        self.ea = h.array("ea", n) if "area" in errs else None
        self.ef = h.array("ef", n) if "flux" in errs else None
        self.list = [x for x in (self.r, self.A, self.L, self.ea, self.ef) if x is not None]

    def petrosian(self, h):
        return h.pure["calculate_petrosian"](area_list=self.A, flux_list=self.L, area_err=self.ea, flux_err=self.ef)

    def radius(self, h, s):
        P = self.petrosian(h)
        return h.pure["calculate_petrosian_r"](r_list=self.r, petrosian_list=P[0], petrosian_err=P[1], eta=s["eta"], interp_kind=s["interp_kind"], interp_num=s["interp_num"])

    def fraction(self, h, s, f):
        rp = self.radius(h, s)
        return h.pure["fraction_to_r"](fraction=f, r_list=self.r, flux_list=self.L, r_petrosian=rp[0], flux_err=self.ef, r_petrosian_err=rp[1], epsilon=s["epsilon"],
                                       epsilon_fraction=s["epsilon_fraction"], interp_kind=s["interp_kind"], interp_num=s["interp_num"])

    def index(self, h, s, f1, f2):
        rp = self.radius(h, s)
        return h.pure["calculate_concentration_index"](fraction_1=f1, fraction_2=f2, r_list=self.r, flux_list=self.L, r_petrosian=rp[0], flux_err=self.ef, r_petrosian_err=rp[1],
                                                       epsilon=s["epsilon"], epsilon_fraction=s["epsilon_fraction"], interp_kind=s["interp_kind"], interp_num=s["interp_num"])


def settings(h, tag, kind, num_=None):
    s = {a: h.real(a + tag) for a in ("eta", "epsilon", "epsilon_fraction", "total_flux_fraction")}
    s["interp_kind"], s["interp_num"] = kind, h.int("interp_num" + tag)
    h.assume(s["interp_num"].t >= 1)
    return s


def build(h, cls, d, s):
    return h.result(cls, d.r, d.A, d.L, area_err=d.ea, flux_err=d.ef, **s)


def load_obj(h):
    return h.load({k: mk(h) for k, mk in OBJ.items()}).module(PS).Petrosian


def at_knot_free(R, L, kind, x):
    """the interpolated curve at x (cubic when no interpolation is set)"""
    return shim.interp1d(R, L, kind="cubic" if kind is None else kind).val(x)
