"""Harnesses: symbolic inputs, preconditions, the real call, postconditions.

A unit is a Python function `u(h, **variant)`.  It creates symbolic arguments with
`h`, assumes the precondition, calls the real function of /repo through
`h.call(...)` and states the postcondition with `h.ensure*`.  The engine explores
every path; an obligation is discharged only if it is proved on all of them.
"""
import itertools
import os
import time
import traceback
import inspect
import z3
from . import core, arr, shim, loader, prove
from .core import (SNum, SBool, Unsupported, Infeasible, Budget, And, Or, Not, Implies, If, TRUE, FALSE, num, as_bool, as_num, zint, T, simp, toreal, IS, RS, BS, NAN, concrete)
from .arr import SArr, SSel, SSeq, asarr, C

UNITS = []
VC = os.path.dirname(os.path.abspath(__file__)) + os.sep


def innermost(e):
    tb = traceback.extract_tb(e.__traceback__)
    return tb[-1].filename if tb else ""


class Unit:
    def __init__(self, name, fn, sizes, variant, opts):
        self.name, self.fn, self.sizes, self.variant, self.opts = name, fn, sizes, variant, opts


def unit(name, sizes=None, variants=None, tier=None, skip=None, **opts):
    """register a unit; `variants` maps a parameter to its values (all combinations)"""
    def deco(fn):
        vs = variants or {}
        for combo in itertools.product(*vs.values()):
            v = dict(zip(vs.keys(), combo))
            if skip is not None and skip(**v):
                continue
            nm = name + ("[%s]" % ",".join(str(x) for x in combo) if combo else "")
            UNITS.append(Unit(nm, fn, sizes, v, dict(opts, tier=tier)))
        return fn
    return deco


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None


class H:
    def __init__(self, run, c, repo, sizes):
        self.run, self.c, self.repo, self.sizes = run, c, repo, sizes
        self.bounded = sizes is not None
        self.case = None
        self.frames = []
        self.cur = ""

    # -- the code ------------------------------------------------------
    def load(self, stubs=None, shims=None):
        self.loader = loader.Loader(self.repo, stubs)
        for k, v in (shims or {}).items():
            mod, _, attr = k.rpartition(".")
            setattr(self.loader.mods[mod], attr, v)
        self.loader.on_enter = self.run.entered
        return self.loader

    # -- inputs --------------------------------------------------------
    def dim(self, name, lo=1):
        if self.sizes is not None:
            return self.sizes[name]
        d = z3.Int(name)
        self.c.assume(SBool(d >= lo))
        return d

    def size(self, d):
        """a dimension as a Python-level number"""
        return arr.dim_val(d)

    def array(self, name, shape, k="f", nan=False):
        shape = (shape,) if not isinstance(shape, tuple) else shape
        s = {"f": RS, "i": IS, "b": BS}[k]
        f = core.UF(name, *([IS] * len(shape) + [s]))
        g = core.UF(name + "_nan", *([IS] * len(shape) + [BS])) if nan else None
        if k == "b":
            a = SArr(shape, k, lambda *i: SBool(f(*[T(x) for x in i])), name=name)
        else:
            a = SArr(shape, k, lambda *i: SNum(f(*[T(x) for x in i]), g(*[T(x) for x in i]) if nan else FALSE, k, True), name=name)
        self.frames.append((name, a, a._ver))
        return a

    def real(self, name, np=False):
        return SNum(z3.Real(name), FALSE, "f", np)

    def int(self, name, np=False):
        return SNum(z3.Int(name), FALSE, "i", np)

    def maybe_nan(self, name, np=False):
        return SNum(z3.Real(name), z3.Bool(name + "_isnan"), "f", np)

    def bool(self, name):
        return SBool(z3.Bool(name))

    # -- specification ---------------------------------------------------
    def assume(self, t):
        self.c.assume(as_bool(t) if not isinstance(t, z3.BoolRef) else SBool(t))

    def forall(self, dims, fn, tags=None):
        """assume fn(i...) for every index"""
        dims = [zint(d) for d in dims]
        if all(isinstance(d, int) for d in dims):
            for i in itertools.product(*[range(d) for d in dims]):
                self.assume(fn(*[z3.IntVal(x) for x in i]))
            return
        self.c.uni(dims, lambda *i: bt(fn(*i)), tags)

    def some(self, n, p):
        """there is a k < n with p(k), as a truth value of a specification"""
        d = zint(n)
        if isinstance(d, int):
            return Or(*[p(z3.IntVal(k)) for k in range(d)]) if d else FALSE
        c = self.c
        e, q = z3.Bool(c.fresh("some")), z3.Int(c.fresh("witness"))
        c.touch(q)
        c.fact(Implies(e, And(q >= 0, q < T(d), p(q))))
        c.uni([d], lambda k: Implies(p(T(k)), e))
        return e

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except (Unsupported, Infeasible, Budget, RecursionError, MemoryError, z3.Z3Exception):
            raise
        except Exception as e:
            if isinstance(e, AttributeError) and "SNum" in str(e) or isinstance(e, (NotImplementedError,)):
                raise Unsupported("%s: %s" % (type(e).__name__, e))
            if isinstance(e, TypeError) and "<locals>" in str(e) and "argument" in str(e):
                raise Unsupported("contract of a callee: %s" % e)
            if isinstance(e, (NameError, AttributeError, KeyError, AssertionError)) and innermost(e).startswith(VC):
                raise Unsupported("%s in the engine: %s" % (type(e).__name__, e))
            o = Outcome(exc=e)
            o.tb = traceback.format_exc()
            return o

    def result(self, f, *a, **k):
        """call that must not raise"""
        o = self.call(f, *a, **k)
        if not o.ok:
            self.fail("no-exception", "raises %s: %s" % (type(o.exc).__name__, str(o.exc)[:120]), o)
            raise Infeasible()
        self.ok("no-exception")
        return o.value

    def rejects(self, f, *a, exc=Exception, **k):
        o = self.call(f, *a, **k)
        if o.ok or not isinstance(o.exc, exc):
            self.fail("rejected", "accepted" if o.ok else "raises %s" % type(o.exc).__name__)
        else:
            self.ok("rejected")
        return o

    # -- obligations -------------------------------------------------------
    def ok(self, name):
        self.c.whole()
        self.run.record(self.cur + name, "discharged", "path", 0.0, "", None)

    def fail(self, name, why, o=None):
        """a fact about the path itself (raised, wrong type): refuted when the path is feasible"""
        self.c.whole()
        t0 = time.time()
        r = self.c._check()
        if r == z3.unsat:
            raise Infeasible()
        m = self.c.model() if r == z3.sat else None
        self.run.record(self.cur + name, "sat" if m is not None else "unknown", "z3", time.time() - t0, why, self.mkcase(m))

    def mkcase(self, m):
        if m is None or self.case is None or not self.bounded:
            return None
        try:
            return self.case(Ev(m))
        except Exception as e:
            return None

    def goal(self, name, g):
        self.c.whole()
        t0 = time.time()
        g = simp(bt(g))
        st, be, m, why = prove.prove(self.c, g)
        self.run.record(self.cur + name, st, be, time.time() - t0, why, self.mkcase(m))
        return st == "discharged"

    ensure = goal

    def ensure_eq(self, name, got, want):
        """same number (NaN equals NaN)"""
        got, want = scalar(got), scalar(want)
        if got is None or want is None:
            if got is None and want is None:
                return self.ok(name)
            return self.fail(name, "type of the result")
        if isinstance(got, SBool) or isinstance(want, SBool):
            return self.goal(name, as_bool(got).t == as_bool(want).t)
        return self.goal(name, eqn(got, want))

    def index(self, shape):
        """index tuples to prove an elementwise statement at"""
        shape = [zint(d) for d in shape]
        if all(isinstance(d, int) for d in shape):
            return [tuple(i) for i in itertools.product(*[range(d) for d in shape])]
        out = []
        for d in shape:
            if isinstance(d, int):
                out.append(list(range(d)))
            else:
                k = self.c.fresh_int("at", pool=False)
                if self.c.decide(T(d) > 0) is not True:
                    raise Unsupported("elementwise statement over a possibly empty array")
                self.c.assume(SBool(And(k >= 0, k < T(d))))
                self.c.touch(k)
                out.append([k])
        return list(itertools.product(*out))

    def ensure_array(self, name, got, shape, want, idx=None):
        """`got` is an array of this shape with element want(*i) at every i"""
        if not isinstance(got, SArr):
            if got is None or isinstance(got, (SNum, SBool, int, float)):
                return self.fail(name, "result is not an array")
            got = asarr(got)
            if not isinstance(got, SArr):
                raise Unsupported("result of type %s" % type(got).__name__)
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        if len(got._shape) != len(shape):
            return self.fail(name, "result has %d dimensions" % len(got._shape))
        if not self.goal(name + ".shape", And(*[T(zint(a)) == T(zint(b)) for a, b in zip(got._shape, shape)])):
            return False
        ok = True
        for i in (self.index(shape) if idx is None else idx):
            w = want(*[T(x) for x in i]) if not all(isinstance(x, int) for x in i) else want(*i)
            ok = self.ensure_eq(name, got.get(*i), w) and ok
        return ok

    def unchanged(self, *arrays):
        for a in arrays:
            nm = getattr(a, "name", None) or "argument"
            v0 = next((v for n, x, v in self.frames if x is a), 0)
            if a._ver == v0:
                self.ok("frame." + nm)
            else:
                self.fail("frame." + nm, "the array is written to")


def bt(x):
    if isinstance(x, z3.BoolRef):
        return x
    return as_bool(x).t


def scalar(x):
    if isinstance(x, SArr):
        if x.ndim == 0:
            return scalar(x.get())
        raise Unsupported("array where a number is expected")
    if x is None or isinstance(x, str):
        return None
    if isinstance(x, float) and x in (float("inf"), -float("inf")):
        raise Unsupported("infinite result")
    if isinstance(x, (SBool, bool)):
        return as_bool(x)
    return as_num(x)


def eqn(a, b):
    """same number, NaN equal to NaN"""
    t1, t2 = a.t, b.t
    if t1.sort() != t2.sort():
        t1, t2 = toreal(t1), toreal(t2)
    return And(a.nan == b.nan, Or(a.nan, t1 == t2))


class Ev:
    """evaluation of inputs in a countermodel, in the case encoding of rac/base.py"""

    def __init__(self, m):
        self.m = m

    def num(self, x):
        x = num(x) if not isinstance(x, SBool) else x
        if isinstance(x, SBool):
            return z3.is_true(self.m.eval(x.t, model_completion=True))
        if z3.is_true(self.m.eval(x.nan, model_completion=True)):
            return {"__f__": "nan"}
        v = self.m.eval(x.t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        r = float(v.as_fraction())
        return int(r) if x.k == "i" else r

    def nd(self, a):
        sh = a._shape

        def go(pre, rest):
            if not rest:
                return self.num(a.get(*pre))
            return [go(pre + (i,), rest[1:]) for i in range(rest[0])]
        return {"__nd__": go((), sh), "dtype": {"f": "float64", "i": "int64", "b": "bool"}[a._k], "shape": list(sh)}

    def d(self, **k):
        return {"__d__": [[a, b] for a, b in k.items()]}


# ---------------------------------------------------------- callee contracts

def stub(fn):
    """callee replaced by its contract: fn(args: dict by parameter name)"""
    def make(real, module):
        sig = inspect.signature(real)

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            return fn(**b.arguments)
        f.__name__ = getattr(real, "__name__", "stub")
        return f
    return make


# ------------------------------------------------------------------ running

class URun(core.Run):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.res = {}
        self.entered_set = {}
        self.feasible_paths = 0

    def entered(self, q):
        self.entered_set[q] = True

    def record(self, name, status, backend, s, why, case):
        r = self.res.get(name)
        rank = {"discharged": 0, "unknown": 1, "sat": 2}
        if r is None:
            r = self.res[name] = {"name": name, "status": status, "backends": {}, "s": 0.0, "why": why, "case": case, "n": 0}
        elif rank[status] > rank[r["status"]] or (status == "sat" and r["case"] is None and case is not None):
            r["status"], r["why"], r["case"] = status, why, case
        r["s"] += s
        r["n"] += 1
        r["backends"][backend] = r["backends"].get(backend, 0) + 1


def run_unit(u, repo, sizes, budget):
    o = u.opts
    run = URun(u.name, sizes, max_paths=o.get("max_paths", 300), budget=budget, feas_rl=o.get("feas_rl", 400000), prove_ms=o.get("prove_ms", 5000), pool_max=o.get("pool_max", 60), cvc5=o.get("cvc5", True))
    shim.USED.clear()
    err = None

    def path(c):
        h = H(run, c, repo, sizes)
        try:
            u.fn(h, **u.variant)
        finally:
            pass
        c.whole()
        if c._check() != z3.unsat:
            run.feasible_paths += 1
    try:
        run.explore(path)
    except (Unsupported, Budget) as e:
        err = "%s: %s" % (type(e).__name__, e)
        tb = traceback.extract_tb(e.__traceback__)
        for fr in reversed(tb):
            if "/petrofit/" in fr.filename:
                err += " (at %s:%s)" % (fr.filename.rpartition("/petrofit/")[2], fr.lineno)
                break
    except RecursionError:
        err = "recursion limit"
    except z3.Z3Exception as e:
        err = "z3: %s" % e
    except Exception as e:
        err = "engine: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1200:])
    return {"unit": u.name, "sizes": sizes, "error": err, "obls": list(run.res.values()), "paths": run.paths, "feasible": run.feasible_paths,
            "solver_s": run.solver_time, "functions": sorted(run.entered_set), "used": dict(shim.USED), "wall": time.time() - run.t0}
