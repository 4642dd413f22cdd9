"""Corrected epsilon and corrected copies."""
from ..contract import *
from .common import *
from .C22 import Grid, load_corr, measured, obj_settings
from .C06 import same_state, compare, QUIET

CALLEES = []
ETAS, FRS = {.2: "p02", .3: "p03", .4: "p04", .5: "p05"}, {.5: "c_r_50", .8: "c_r_80", .99: "c_r_99"}


def setup(h, eta, fr, errs, kind="cubic"):
    mod, cls = load_corr(h)
    g = Grid(h)
    d = Data(h, errs)
    s = obj_settings(h, kind)
    if eta is not None:
        s["eta"] = eta
    else:
        h.assume(And(*[s["eta"].t != core.qval(Fr(str(e))) for e in ETAS]))
    if fr is not None:
        s["epsilon_fraction"] = fr
    else:
        h.assume(And(*[s["epsilon_fraction"].t != core.qval(Fr(str(e))) for e in FRS]))
    p = build(h, cls, d, s)
    pc = h.result(mod.PetrosianCorrection, g.table, enforce_range=False)
    return mod, cls, g, d, s, p, pc


from fractions import Fraction as Fr


def num_settings(s):
    return {k: (num(v) if isinstance(v, float) else v) for k, v in s.items()}


@unit("C23.epsilon", variants={"eta": list(ETAS), "fr": list(FRS), "kind": ["cubic", "linear", None]}, skip=lambda eta, fr, kind: kind != "cubic" and (eta, fr) not in ((.3, .8), (.2, .99)))
def epsilon(h, eta, fr, kind):
    mod, cls, g, d, s, p, pc = setup(h, eta, fr, "flux", kind)
    sn = num_settings(s)
    n = h.result(pc.estimate_n, p)
    got, y, z = measured(h, d, sn)
    for x in got + [y, z]:
        h.assume(Not(x.nan))
    e = num(h.result(pc.estimate_epsilon, p))
    k = g.row_of(n)
    h.ensure_eq("row", n, g.cols["n"].get(k))
    h.goal("nearest-row", Or(*[g.nearest(k, (x, y, z)) for x in got]))
    h.ensure_eq("ratio-of-the-columns-of-the-settings", e, core.to_float(g.cols[FRS[fr]].get(k)) / core.to_float(g.cols[ETAS[eta]].get(k)))
    if same_state(h, p, build(h, cls, d, s)):
        h.ok("original-unchanged")
    g.kept()
    h.unchanged(*d.list)


@unit("C23.unsupported", variants={"eta": [.2, None], "fr": [.8, None], "what": ["estimate_epsilon", "correct"]}, skip=lambda eta, fr, what: eta is not None and fr is not None)
def unsupported(h, eta, fr, what):
    """any eta or epsilon fraction other than the listed ones"""
    mod, cls, g, d, s, p, pc = setup(h, eta, fr, "")
    h.rejects(getattr(pc, what), p)
    if same_state(h, p, build(h, cls, d, s)):
        h.ok("original-unchanged")
    g.kept()
    h.unchanged(*d.list)


@unit("C23.copy", variants={"eta": list(ETAS), "fr": list(FRS), "errs": ["", "area+flux"]}, skip=lambda eta, fr, errs: errs == "" and (eta, fr) not in ((.3, .8), (.2, .99)))
def copied(h, eta, fr, errs):
    mod, cls, g, d, s, p, pc = setup(h, eta, fr, errs)
    e = h.result(pc.estimate_epsilon, p)
    h.assume(Not(num(e).nan))
    q = h.result(pc.correct, p)
    h.goal("a-new-object", TRUE if q is not p and type(q) is type(p) else FALSE)
    s2 = dict(s)
    s2["epsilon"] = e
    ref0, ref = build(h, cls, d, s), build(h, cls, d, s2)
    for x, r, nm in ((p, ref0, "original"), (q, ref, "copy")):
        if same_state(h, x, r):
            h.ok(nm + ".state-is-that-of-a-fresh-object")      # reads are functions of the state (C06)
            continue
        for a in QUIET + ["eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "interp_kind", "interp_num"]:
            compare(h, x, r, a, nm)
    g.kept()
    h.unchanged(*d.list)
