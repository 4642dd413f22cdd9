"""Discharging obligations: normal forms, z3, case splits, cvc5."""
import subprocess
import tempfile
import os
import time
import z3
from . import core, nf
from .core import And, Or, Not, Implies, TRUE, FALSE, simp, toreal, SNum, SBool, T, num, as_bool, Unsupported


def nf_of(c):
    """the path's normal-form prover, positivity decided from its facts"""
    key = len(c.pc)
    if getattr(c, "_nf", None) is None or c._nf[0] != key:
        memo = {}

        def pos(t):
            k = t.get_id()
            if k not in memo:
                r = c.decide(toreal(t) > 0) is True
                memo[k] = (r, t)
            return memo[k][0]
        nmemo = {}

        def nonneg(t):
            k = t.get_id()
            if k not in nmemo:
                r = c.decide(toreal(t) >= 0) is True
                nmemo[k] = (r, t)
            return nmemo[k][0]
        c._nf = (key, nf.NF(pos, nonneg))
    return c._nf[1]


def elim_ite(c, t, depth=0):
    """replace ite terms whose condition the path settles"""
    ites = find_ites(t)
    for i in ites:
        cond = i.arg(0)
        d = c.decide(cond)
        if d is not None:
            return elim_ite(c, simp(z3.substitute(t, (i, i.arg(1) if d else i.arg(2)))), depth)
    return t


def find_ites(t):
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        for y in x.children():
            go(y)
        if z3.is_app_of(x, z3.Z3_OP_ITE) and x.sort() != core.BS:
            out.append(x)
    go(t)
    return out


def eq_terms(c, a, b):
    """is a == b provable by normal forms on this path"""
    if a.eq(b):
        return True
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    if a.sort() == core.BS:
        return False
    try:
        a, b = elim_ite(c, a), elim_ite(c, b)
        if a.eq(b):
            return True
        if nf_of(c).prove_eq(a, b):
            return True
    except (nf.TooBig, RecursionError, z3.Z3Exception):
        pass
    return False


_TABLES = {}


def tables(t):
    """the arrays a term reads"""
    k = t.get_id()
    r = _TABLES.get(k)
    if r is None or not r[0].eq(t):
        acc, seen, st = set(), set(), [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(y.sort() == core.IS for y in x.children()):
                acc.add(x.decl().name())
            st.extend(x.children())
        r = _TABLES[k] = (t, acc)
    return r[1]


def equal_elements(c, guard, e1, e2):
    n1, n2 = (e.nan if isinstance(e, SNum) else e.t for e in (e1, e2))
    key = ("eq", e1.t.get_id(), n1.get_id(), e2.t.get_id(), n2.get_id(), guard.get_id(), len(c.pc), len(c.facts))
    if key not in c.eqmemo:
        c.eqmemo[key] = (equal_elements_(c, guard, e1, e2), e1, e2, guard)
    return c.eqmemo[key][0]


def equal_elements_(c, guard, e1, e2):
    if isinstance(e1, SBool):
        goal = simp(e1.t == e2.t)
    else:
        t1, t2 = e1.t, e2.t
        if t1.sort() != t2.sort():
            t1, t2 = toreal(t1), toreal(t2)
        if t1.eq(t2) and e1.nan.eq(e2.nan):
            return True
        nn = simp(e1.nan == e2.nan)
        if core.is_false(nn):
            return False
        if core.is_true(nn) and tables(t1) == tables(t2) and eq_terms(c, simp(t1), simp(t2)):
            return True
        goal = And(nn, Or(e1.nan, simp(t1 == t2)))
    if core.is_true(goal):
        return True
    if core.is_false(goal):
        return False
    key = (goal.get_id(), guard.get_id(), len(c.pc))
    if key in c.eqmemo:
        return c.eqmemo[key][0]
    r = c._check(guard, Not(goal)) == z3.unsat
    c.eqmemo[key] = (r, goal, guard)
    return r


def conjuncts(t):
    if z3.is_and(t):
        out = []
        for x in t.children():
            out += conjuncts(x)
        return out
    return [t]


class Proof:
    def __init__(self):
        self.backends = []
        self.model = None
        self.why = ""


def prove(c, goal, ms=None, splits=4):
    """(status, backend, model-or-None, why) for pc, facts |= goal"""
    used = set()
    ms = ms or c.run.prove_ms
    touch_goal(c, goal)
    for g in conjuncts(simp(goal)):
        s, b, m, w = prove1(c, g, ms, splits)
        if s != "discharged":
            return s, b, m, w
        used.add(b)
    for b in ("cvc5", "z3+split", "z3", "normal-form", "simplifier"):
        if b in used:
            return "discharged", b, None, ""
    return "discharged", "simplifier", None, ""


def touch_goal(c, t):
    """integer arguments of functions in the goal become instantiation terms"""
    if not c.unis:
        return
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in x.children():
                if a.sort() == core.IS:
                    c.touch(a)
        st.extend(x.children())


def try_nf(c, g):
    """equality goals, possibly under disjuncts the path refutes"""
    if z3.is_or(g):
        for x in g.children():
            if try_nf(c, x):
                return True
        return False
    if z3.is_eq(g) and isinstance(g.arg(0), z3.ArithRef):
        return eq_terms(c, g.arg(0), g.arg(1))
    return False


def prove1(c, g, ms, splits):
    if core.is_true(g):
        return "discharged", "simplifier", None, ""
    g = canon(c, g)
    if core.is_true(g):
        return "discharged", "z3", None, ""
    if try_nf(c, g):
        return "discharged", "normal-form", None, ""
    t0 = time.time()
    c.instantiate()
    ng = Not(g)
    r = z3.unknown
    try:
        r = c.solver.check(ng)
        if r == z3.unsat:
            return "discharged", "z3", None, ""
        if r == z3.sat and not c.nl:
            return "sat", "z3", c.solver.model(), "z3 found a countermodel"
        s = None
        for nl in dedup([c.relevant_nl((g,), 2), c.relevant_nl((g,), 6), c.nl]):
            s = z3.Solver()
            s.set("timeout", ms)
            s.add(*relevant(c.lin, g))
            s.add(*nl)
            s.add(ng)
            r = s.check()
            if r == z3.unsat:
                return "discharged", "z3", None, ""
        if r == z3.sat:
            s = z3.Solver()
            s.set("timeout", ms)
            s.add(*c.lin)
            s.add(*c.nl)
            s.add(ng)
            r = s.check()
            if r == z3.unsat:
                return "discharged", "z3", None, ""
            if r == z3.sat:
                return "sat", "z3", s.model(), "z3 found a countermodel"
    finally:
        c.run.solver_time += time.time() - t0
    if splits > 0:
        d = split_once(c, g, ms, splits)
        if d is not None:
            return d
    if c.run.cvc5:
        r = cvc5_check(s, c.run)
        if r == "unsat":
            return "discharged", "cvc5", None, ""
    return "unknown", "z3", None, "solvers gave up"


def dedup(lists):
    out = []
    for l in lists:
        if not out or len(l) != len(out[-1]):
            out.append(l)
    return out


def canon(c, g):
    """replace integer terms the path proves equal by one of them"""
    for _ in range(6):
        ts = sorted({t.get_id(): t for t in int_args(g)}.values(), key=lambda t: (len(str(t)), str(t)))
        if len(ts) > 14:
            return g
        done = True
        for j in range(len(ts) - 1, 0, -1):
            if core.lit(ts[j]):
                continue
            for i in range(j):
                if c.decide(ts[i] == ts[j]) is True:
                    g = simp(z3.substitute(g, (ts[j], ts[i])))
                    done = False
                    break
            if not done:
                break
        if done:
            return g
    return g


def int_args(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() != core.BS:
            out += [a for a in x.children() if a.sort() == core.IS]
        st.extend(x.children())
    return out


def split_once(c, g, ms, splits):
    its = find_ites(g)
    its = [i for i in its if not find_ites(i.arg(0))]
    if not its:
        return None
    cond = its[0].arg(0)
    for val in (True, False):
        c.push(cond if val else Not(cond))
        try:
            if c._check() == z3.unsat:
                continue
            g2 = g
            for i in find_ites(g):
                if i.arg(0).eq(cond):
                    g2 = z3.substitute(g2, (i, i.arg(1) if val else i.arg(2)))
            r = prove(c, simp(g2), ms, splits - 1)
            if r[0] != "discharged":
                return r
        finally:
            c.pop()
    return "discharged", "z3+split", None, ""


def consts_of(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        st.extend(x.children())
    return acc


_CONSTS = {}


def cached_consts(a):
    k = a.get_id()
    r = _CONSTS.get(k)
    if r is None or not r[0].eq(a):
        r = _CONSTS[k] = (a, consts_of(a))
    return r[1]


def relevant(asserts, g):
    """assertions sharing symbols with the goal, closed transitively"""
    if len(asserts) < 40:
        return asserts
    syms = consts_of(g)
    cs = [(a, cached_consts(a)) for a in asserts]
    keep = [False] * len(cs)
    for _ in range(3):
        new = set()
        for i, (a, s) in enumerate(cs):
            if not keep[i] and s & syms:
                keep[i] = True
                new |= s
        if not new - syms:
            break
        syms = syms | new
    return [a for (a, s), k in zip(cs, keep) if k]


def cvc5_check(s, run, tl=8000):
    if run.cvc5_calls >= run.cvc5_max:
        return "unknown"
    run.cvc5_calls += 1
    t0 = time.time()
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % tl, "--nl-ext-tplanes", f.name], capture_output=True, text=True, timeout=tl / 1000 + 10)
        out = p.stdout.strip().splitlines()
        return out[-1] if out else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(f.name)
        run.solver_time += time.time() - t0
