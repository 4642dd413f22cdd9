"""Petrosian objects depend only on their data and current settings.

Induction over histories: an object that equals a freshly built one (same fields) still does after any
single operation; reads of equal objects are equal because they are functions of the fields."""
from ..contract import *
from .common import *

READS = ["r_petrosian", "r_petrosian_err", "r_epsilon", "r_epsilon_in_range", "r_total_flux", "r_total_flux_err", "total_flux", "total_flux_err", "half_flux", "half_flux_err",
         "r_half_light", "r_half_light_err", "r_50", "r_50_err", "c2080", "c5090", "petrosian_list", "petrosian_err", "r_list", "area_list", "flux_list", "area_err", "flux_err"] + list(SETTINGS)
CALLS = [("fraction_flux_to_r", (0.3,)), ("fraction_flux_to_r_err", (0.3,)), ("concentration_index", (0.3, 0.7)), ("concentration_index", ())]


def fields(o):
    return dict(o.__dict__)


def same_state(h, a, b):
    fa, fb = fields(a), fields(b)
    return fa.keys() == fb.keys() and all(same_field(h, fa[k], fb[k]) for k in fa)


def same_field(h, x, y):
    if x is None or y is None:
        return x is None and y is None
    if isinstance(x, (dict, list, tuple)) or callable(x):
        return x is y or (type(x) is type(y) and not x and not y)
    return same_value(h, x, y)


def read(h, o, name):
    if isinstance(name, tuple):
        return h.result(getattr(o, name[0]), *name[1])
    return h.result(getattr, o, name)


def same_read(h, name, x, y, what):
    if x is None or y is None:
        return h.ok(what) if x is None and y is None else h.fail(what, "one of the two is None")
    if isinstance(x, (tuple, list)):
        h.goal(what, isinstance(y, (tuple, list)) and len(x) == len(y))
        for i, j in zip(x, y):
            same_read(h, name, i, j, what)
        return
    if isinstance(x, SArr) and x.ndim:
        h.ensure_array(what, y, x._shape, lambda *i: x.get(*i))
        return
    if isinstance(x, str) or isinstance(y, str):
        return h.goal(what, TRUE if x == y else FALSE)
    h.ensure_eq(what, x, y)


def fresh_object(h, errs="flux", kind="cubic", k="f"):
    cls = load_obj(h)
    d = Data(h, errs, k)
    s = settings(h, "", kind)
    return cls, d, s, build(h, cls, d, s)


QUIET = ["r_petrosian", "r_petrosian_err", "r_epsilon", "r_total_flux", "r_half_light", "r_50_err", "c2080", "petrosian_list"] + CALLS      # reads that do not branch
NAMES = READS + ["fraction_flux_to_r", "fraction_flux_to_r_err", "concentration_index"]


def op_of(name):
    return next((c for c in CALLS if c[0] == name), name)


def compare(h, o, ref, r, tag):
    nm = r if isinstance(r, str) else r[0]
    same_read(h, nm, read(h, o, r), read(h, ref, r), "%s.%s" % (tag, nm))


def changed(h, s, attr):
    s2 = dict(s)
    s2[attr] = "linear" if attr == "interp_kind" else h.int("interp_num2") if attr == "interp_num" else h.real(attr + "2")
    if attr == "interp_num":
        h.assume(s2[attr].t >= 1)
    return s2


@unit("C06.setting", variants={"attr": list(SETTINGS), "errs": ["", "area", "area+flux"], "kind": ["cubic", None]})
def setting(h, attr, errs, kind):
    """induction step: one setting changed on an object in the state of a fresh one leaves it in the state of a fresh one"""
    cls, d, s, o = fresh_object(h, errs, kind)
    s2 = changed(h, s, attr)
    h.result(setattr, o, attr, s2[attr])
    if same_state(h, o, build(h, cls, d, s2)):
        h.ok("state-is-that-of-a-fresh-object")
    h.unchanged(*d.list)


@unit("C06.read", variants={"op": NAMES, "errs": ["", "area+flux"]})
def reads(h, op, errs):
    """induction step: a read leaves the state that of a fresh object and does not write to the data"""
    cls, d, s, o = fresh_object(h, errs)
    vers = {k: x._ver for k, x in fields(o).items() if isinstance(x, SArr)}
    read(h, o, op_of(op))
    if same_state(h, o, build(h, cls, d, s)):
        h.ok("state-is-that-of-a-fresh-object")
    for k, x in fields(o).items():
        if isinstance(x, SArr) and k in vers:
            h.goal("data-not-written.%s" % k, x._ver == vers[k])
    h.unchanged(*d.list)


@unit("C06.history", variants={"attr": list(SETTINGS), "op": NAMES})
def history(h, attr, op):
    """reads; a setting changed; the read equals that of a fresh object (also when the state differs, as with a cache)"""
    cls, d, s, o = fresh_object(h, "area+flux")
    for q in QUIET:
        read(h, o, q)
    if op not in QUIET:
        read(h, o, op_of(op))
    s2 = changed(h, s, attr)
    h.result(setattr, o, attr, s2[attr])
    compare(h, o, build(h, cls, d, s2), op_of(op), "after-%s" % attr)


@unit("C06.copy", variants={"attr": list(SETTINGS)})
def copied(h, attr):
    import copy
    cls, d, s, o = fresh_object(h)
    read(h, o, "r_petrosian")
    c = h.result(copy.copy, o)
    s2 = changed(h, s, attr)
    h.result(setattr, c, attr, s2[attr])
    for r in QUIET:
        read(h, c, r)
    for x, st, nm in ((o, s, "original"), (c, s2, "copy")):
        ref = build(h, cls, d, st)
        if same_state(h, x, ref):
            h.ok(nm + ".state-is-that-of-a-fresh-object")
        for r in QUIET + list(SETTINGS):
            compare(h, x, ref, r, nm)


@unit("C06.owns-its-data", variants={"arg": ["r", "A", "L", "ea", "ef"], "k": ["f", "i"]})
def owns(h, arg, k):
    """later changes to the caller's arrays have no effect"""
    cls = load_obj(h)
    d = Data(h, "area+flux", k)
    s = settings(h, "", "cubic")
    keep = {n: (x.copy() if isinstance(x, SArr) else x) for n, x in d.__dict__.items()}
    o = build(h, cls, d, s)
    x = getattr(d, arg)
    j, val = h.int("j"), h.int("val") if k == "i" else h.real("val")
    h.assume(And(j.t >= 0, j.t < T(d.n)))
    x[j] = val
    d2 = Data.__new__(Data)
    d2.__dict__.update(keep)
    ref = build(h, cls, d2, s)
    if same_state(h, o, ref):
        h.ok("state-is-that-of-a-fresh-object")
    for r in QUIET + ["r_list", "area_list", "flux_list", "area_err", "flux_err"]:
        compare(h, o, ref, r, "after-the-callers-change")


@unit("C06.defaults")
def defaults(h):
    cls = load_obj(h)
    d = Data(h, "flux")
    o = h.result(cls, d.r, d.A, d.L, flux_err=d.ef)
    ref = build(h, cls, d, dict(eta=num(0.2), epsilon=num(2.0), epsilon_fraction=num(0.99), total_flux_fraction=num(0.99), interp_kind="cubic", interp_num=num(5000)))
    for r in QUIET + list(SETTINGS):
        compare(h, o, ref, r, "default-settings")
