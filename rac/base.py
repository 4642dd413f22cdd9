"""Runtime contract checking of the real code: shared machinery.

A property registers `gen(rng, i)` -> case (a dict of plain data and arrays) and
`check(case)` -> None, or a text saying how the real code broke the contract.
"""
import base64
import hashlib
import json
import math
import os
import random
import time
import traceback
import warnings

import numpy as np

REG = {}


class Prop:
    def __init__(self, pid, gen, check, n, rule):
        self.pid, self.gen, self.check, self.n, self.rule = pid, gen, check, n, rule


def prop(pid, n, rule, gen):
    def deco(check):
        REG[pid] = Prop(pid, gen, check, n, rule)
        return check
    return deco


# ------------------------------------------------------------ case encoding

def enc(x):
    if isinstance(x, np.ndarray):
        return {"__nd__": enc(x.tolist()), "dtype": str(x.dtype), "shape": list(x.shape)}
    if isinstance(x, np.generic):
        return {"__np__": enc(x.item()), "dtype": str(x.dtype)}
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        if math.isnan(x):
            return {"__f__": "nan"}
        if math.isinf(x):
            return {"__f__": "inf" if x > 0 else "-inf"}
        return x
    if isinstance(x, tuple):
        return {"__t__": [enc(v) for v in x]}
    if isinstance(x, list):
        return [enc(v) for v in x]
    if isinstance(x, dict):
        return {"__d__": [[enc(k), enc(v)] for k, v in x.items()]}
    raise TypeError("cannot encode %r" % (type(x),))


def dec(x):
    if isinstance(x, list):
        return [dec(v) for v in x]
    if isinstance(x, dict):
        if "__nd__" in x:
            return np.array(dec(x["__nd__"]), dtype=x["dtype"]).reshape(x["shape"])
        if "__np__" in x:
            return np.dtype(x["dtype"]).type(dec(x["__np__"]))
        if "__f__" in x:
            return float(x["__f__"])
        if "__t__" in x:
            return tuple(dec(v) for v in x["__t__"])
        if "__d__" in x:
            return {dec(k): dec(v) for k, v in x["__d__"]}
    return x


def digest(case):
    return hashlib.sha256(json.dumps(enc(case), sort_keys=True).encode()).hexdigest()[:16]


# ------------------------------------------------------------ comparisons

class Broken(Exception):
    """the contract is violated"""


def need(cond, msg, *a):
    if not bool(cond):
        raise Broken(msg % a if a else msg)


def show(v):
    s = np.array2string(v, threshold=12, precision=8) if isinstance(v, np.ndarray) else repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def close(a, b, what, rtol=1e-7, atol=0.0, scale=None):
    """same shape, NaN where NaN, otherwise close"""
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
    a, b = a.astype(float), b.astype(float)
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        raise Broken("%s: got %s, expected %s (NaN pattern)" % (what, show(a), show(b)))
    s = (np.max(np.abs(b[~nb & np.isfinite(b)])) if np.any(~nb & np.isfinite(b)) else 0.0) if scale is None else scale
    with np.errstate(invalid="ignore"):
        bad = ~na & ~(a == b) & ~(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(b), 0 if scale is None else s) + 1e-300)
    if np.any(bad):
        k = tuple(int(v[0]) for v in np.nonzero(bad)) if a.ndim else ()
        raise Broken("%s: %s is %r, expected %r" % (what, "element %s" % (k,) if a.ndim else "value", float(a[k]), float(b[k])))


def same(a, b, what):
    """exactly equal arrays, NaN included, same dtype"""
    a, b = np.asarray(a), np.asarray(b)
    need(a.dtype == b.dtype and a.shape == b.shape, "%s: dtype/shape changed", what)
    ok = np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    need(ok, "%s was modified: %s, was %s", what, show(a), show(b))


def rejects(fn, what, exc=Exception):
    try:
        r = fn()
    except exc:
        return
    raise Broken("%s was accepted (returned %s)" % (what, show(r)))


# ------------------------------------------------- threshold-search oracle

def near_ok(got, xs, ys, value, growing, tol=1e-9):
    """is `got` an acceptable answer of the threshold search?

    The answer is the abscissa of the sample nearest to value among the samples up to
    the first one at or beyond it; NaN when there is none.  Samples within rounding
    of the threshold (or equally near) may be resolved either way.
    """
    xs, ys = np.asarray(xs, float), np.asarray(ys, float)
    s = tol * max(1e-300, abs(float(value)), float(np.nanmax(np.abs(ys))) if np.any(np.isfinite(ys)) else 0)
    d = ys - value if growing else value - ys
    hard = np.where(d >= s)[0]
    soft = np.where(d >= -s)[0]
    ends = set()
    if soft.size == 0:
        ends.add(None)
    else:
        last = hard[0] if hard.size else None
        ends.update(int(i) for i in soft if last is None or i <= last)
        if last is None:
            ends.add(None)
    for e in ends:
        if e is None:
            if np.isnan(got):
                return True
            continue
        seg = np.abs(ys[: e + 1] - value)
        best = np.nanmin(seg)
        for j in np.where(seg <= best + 2 * s)[0]:
            if abs(got - xs[j]) <= 1e-9 * max(1.0, abs(xs[j])):
                return True
    return False


def near_all(xs, ys, value, growing, tol=1e-9):
    """all acceptable answers (list of abscissae, possibly NaN)"""
    xs = np.asarray(xs, float)
    out = [x for x in np.unique(xs) if near_ok(x, xs, ys, value, growing, tol)] if len(xs) <= 64 else None
    if out is None:
        ys = np.asarray(ys, float)
        d = ys - value if growing else value - ys
        s = tol * max(1e-300, abs(float(value)), float(np.nanmax(np.abs(ys))))
        soft = np.where(d >= -s)[0]
        out = []
        hard = np.where(d >= s)[0]
        last = hard[0] if hard.size else None
        for e in soft:
            if last is not None and e > last:
                break
            seg = np.abs(ys[: e + 1] - value)
            out += [xs[j] for j in np.where(seg <= np.nanmin(seg) + 2 * s)[0]]
        if last is None:
            out.append(np.nan)
        return out
    if near_ok(np.nan, xs, ys, value, growing, tol):
        out.append(np.nan)
    return out


# ------------------------------------------------------------------ running

def run_case(p, case):
    """None if the contract held, else the failure text"""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            r = p.check(case)
            return r
        except Broken as e:
            return str(e)
        except MemoryError:
            return None
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            fr = [f for f in tb if "/petrofit/" in f.filename]
            where = ("%s:%s" % (os.path.basename(fr[-1].filename), fr[-1].name)) if fr else ("%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno))
            return "unexpected %s: %s (at %s)" % (type(e).__name__, e, where)


class Mixed(int):
    """a case number whose remainders are independent of each other: options chosen by i % 2 and i % 4 then meet in every combination"""

    def __mod__(self, m):
        return random.Random("%d/%d" % (int(self), m)).randrange(m)


def run(pid, seed, tier, budget, factor=1.0):
    p = REG[pid]
    n = int(p.n[0 if tier == "quick" else 1] * factor)
    t0 = time.time()
    seen, evals, samples, fails = set(), 0, [], []
    import zlib
    for i in range(n):
        rng = np.random.default_rng([seed, zlib.crc32(pid.encode()), i])
        case = p.gen(rng, Mixed(i) if i // 60 % 2 else i)
        if case is None:
            continue
        h = digest(case)
        evals += 1
        fresh = h not in seen
        seen.add(h)
        if fresh and len(samples) < 3:
            s = json.dumps(enc(case))
            samples.append(s if len(s) < 1500 else s[:1500] + "...")
        r = run_case(p, case)
        if r:
            fails.append({"case": enc(case), "what": r})
            if len(fails) >= 5:
                break
        if time.time() - t0 > budget:
            break
    return {"evaluations": evals, "distinct": len(seen), "samples": samples, "fails": fails, "rule": p.rule,
            "planned": n, "wall": time.time() - t0}
