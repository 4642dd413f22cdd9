"""C01-C07: the Petrosian core."""
import copy
import numpy as np
from scipy.interpolate import interp1d
from .base import prop, need, close, same, rejects, near_ok, near_all, Broken

from petrofit.petrosian import core as K
from petrofit.petrosian import Petrosian


# ------------------------------------------------------------- generators

def as_kind(v, kind):
    """the same numbers as array / list / tuple / int array"""
    if kind == "list":
        return v.tolist()
    if kind == "tuple":
        return tuple(v.tolist())
    return v


def curve(rng, n, plateau=True, ints=False, incflux=False, descflux=False):
    steps = rng.uniform(0.2, 30, n)
    if ints:
        steps = np.ceil(steps)
    if plateau:
        m = rng.random(n) < rng.choice([0.0, 0.25, 0.6])
        m[0] = False
        steps = np.where(m, 0, steps)
    A = np.cumsum(steps)
    fl = rng.uniform(0.05, 8, n) * (1 if rng.random() < 0.8 else 1e3)
    if ints:
        fl = np.ceil(fl)
    if not incflux:
        fl = np.where((steps == 0) | (rng.random(n) < 0.1), 0, fl)
        fl[0] = max(fl[0], 1)
    if descflux:
        sg = np.where(rng.random(n) < 0.3, -1, 1)
        fl = fl * sg
    L = np.cumsum(fl)
    if descflux and np.any(L == 0):
        L = L + 0.37
    if ints:
        A = A.astype(np.int64 if rng.random() < 0.7 else np.int32)
        if not descflux:
            L = L.astype(np.int64)
    return A, L


def gen_c01(rng, i):
    mode = ["real", "real", "int", "intA", "reject", "plateau0"][i % 6]
    n = int(rng.integers(3, 26)) if i % 5 else 3
    if mode == "reject":
        A, L = curve(rng, max(n, 4))
        how = ["short", "len", "len2", "dec", "dec1"][i % 5]
        if how == "short":
            k = int(rng.integers(0, 3))
            A, L = A[:k], L[:k]
        elif how == "len":
            L = L[:-1]
        elif how == "len2":
            A = A[:-1]
        elif how == "dec":
            A = A[::-1].copy()
            if A[0] == A[-1]:
                A[-1] = A[0] / 2
        else:
            j = int(rng.integers(1, len(A)))
            A[j] = [A[j - 1] * 0.999 - 1e-3, A[j - 1] * (1 - 1e-7), A[j - 1] * (1 - 1e-12), np.nextafter(A[j - 1], 0)][int(rng.integers(4))]
        return {"mode": mode, "how": how, "A": A, "L": L, "as": "array"}
    A, L = curve(rng, n, ints=mode in ("int", "intA"))
    if mode == "intA":
        L = L.astype(float) + 0.3
    if mode == "plateau0":
        A[1] = A[0]
        if rng.random() < 0.4:
            A[2] = A[0]
        A = np.maximum.accumulate(A)
        if rng.random() < 0.1:
            A[:] = A[0]
    return {"mode": mode, "A": A, "L": L, "as": ["array", "array", "list", "tuple"][i % 4]}


def spec_petro(A, L):
    A, L = np.asarray(A, float), np.asarray(L, float)
    n = len(A)
    out = np.full(n, np.nan)
    for k in range(1, n):
        if A[k] == A[k - 1]:
            out[k] = out[k - 1]
        else:
            out[k] = ((L[k] - L[k - 1]) / (A[k] - A[k - 1])) / (L[k] / A[k])
    return out


def object_rejects(A, L, hows):
    r, e = np.arange(1.0, len(A) + 1), np.full(len(A), .1)
    for how in hows:
        for k in (1, -1):
            cut = lambda x, nm: x if nm != how else np.concatenate([x, x[-1:]]) if k > 0 else x[:-1]
            a = [cut(r, "radii"), cut(A, "areas"), cut(L, "fluxes")]
            kw = {n: cut(e, n.replace("_err", "-errors")) for n in ("area_err", "flux_err") if how.endswith("errors")}
            if how == "short":
                a = [x[:2 if k > 0 else 1] for x in a]
            rejects(lambda: Petrosian(*a, **kw), "a Petrosian object of invalid arrays (%s)" % how)


@prop("C01", (900, 12000), "random curves of growth (integer, real, repeated areas, lists) against the definition; rejected inputs; arguments unchanged", gen_c01)
def c01(c):
    if c["mode"] == "object":
        c = dict(c, A=np.array([1.0, 3, 6, 10, 15]), L=np.array([2.0, 5, 7, 8, 8.5]), **{"as": "array"})
        object_rejects(c["A"], c["L"], [c["how"]])
        return
    A, L = as_kind(c["A"], c["as"]), as_kind(c["L"], c["as"])
    A0, L0 = copy.deepcopy(A), copy.deepcopy(L)
    if c["mode"] == "reject":
        rejects(lambda: K.calculate_petrosian(A, L), "invalid input (%s)" % c["how"])
        rejects(lambda: Petrosian(np.arange(1.0, len(A) + 1), A, L), "an object of invalid input (%s)" % c["how"])
    else:
        r = K.calculate_petrosian(A, L)
        need(len(r) == 2, "returns %d values", len(r))
        close(r[0], spec_petro(A, L), "Petrosian profile", rtol=1e-9, scale=1e-12)
        need(r[1] is None, "error array without errors")
        if c["as"] == "array" and len(A) % 4 == 0:
            object_rejects(A, L, ["radii", "areas", "fluxes", "area-errors", "flux-errors", "short"])
        if c["as"] == "array" and len(A) % 3 == 0:
            p = Petrosian(np.arange(1.0, len(A) + 1), A, L, eta=0.3, epsilon=1.5)
            close(p.petrosian_list, spec_petro(A, L), "petrosian_list", rtol=1e-9, scale=1e-12)
            need(p.petrosian_err is None or np.all(np.isnan(np.asarray(p.petrosian_err, float))), "petrosian_err without errors")
    if c["as"] == "array":
        same(A, A0, "area_list")
        same(L, L0, "flux_list")
    else:
        need(A == A0 and L == L0, "input lists were modified")


def gen_c02(rng, i):
    ints = i % 4 == 1
    n = int(rng.integers(3, 22)) if i % 5 else 3
    A, L = curve(rng, n, ints=ints, incflux=True, descflux=i % 3 == 2)
    which = ["both", "flux", "area", "both", "none"][i % 5]
    ea = rng.uniform(0, 2, n)
    ef = rng.uniform(0, 2, n)
    if i % 7 == 3:
        ea[rng.random(n) < 0.4] = 0
        ef[rng.random(n) < 0.4] = 0
    if i % 6 == 1:
        ea, ef = np.ceil(ea).astype(int), np.ceil(ef).astype(int)
    return {"A": A, "L": L, "ea": ea if which in ("both", "area") else None,
            "ef": ef if which in ("both", "flux") else None, "as": ["array", "list", "array"][i % 3]}


def spec_petro_err(A, L, ea, ef):
    A, L = np.asarray(A, float), np.asarray(L, float)
    n = len(A)
    ea = np.zeros(n) if ea is None else np.asarray(ea, float)
    ef = np.zeros(n) if ef is None else np.asarray(ef, float)
    P = spec_petro(A, L)
    out = np.full(n, np.nan)
    for k in range(1, n):
        if A[k] == A[k - 1]:
            out[k] = out[k - 1]
            continue
        dL, dA = L[k] - L[k - 1], A[k] - A[k - 1]
        ri = (ef[k] ** 2 + ef[k - 1] ** 2) / dL ** 2 + (ea[k] ** 2 + ea[k - 1] ** 2) / dA ** 2
        rm = (ef[k] / L[k]) ** 2 + (ea[k] / A[k]) ** 2
        out[k] = abs(P[k]) * np.sqrt(ri + rm)
    return out


@prop("C02", (700, 10000), "random curves with area and/or flux errors against quadrature propagation", gen_c02)
def c02(c):
    a = {k: as_kind(c[k], c["as"]) if c[k] is not None else None for k in ("A", "L", "ea", "ef")}
    b = copy.deepcopy(a)
    P, E = K.calculate_petrosian(a["A"], a["L"], area_err=a["ea"], flux_err=a["ef"])
    if c["ea"] is None and c["ef"] is None:
        need(E is None, "error array without errors")
    else:
        need(E is not None, "no error array")
        close(E, spec_petro_err(c["A"], c["L"], c["ea"], c["ef"]), "Petrosian error", rtol=1e-8, scale=1e-12)
    close(P, spec_petro(c["A"], c["L"]), "Petrosian profile", rtol=1e-8, scale=1e-12)
    if E is not None and c["as"] == "array" and len(c["A"]) % 2 == 0:
        p = Petrosian(np.arange(1.0, len(c["A"]) + 1), a["A"], a["L"], area_err=a["ea"], flux_err=a["ef"], eta=0.3)
        close(p.petrosian_err, spec_petro_err(c["A"], c["L"], c["ea"], c["ef"]), "petrosian_err", rtol=1e-8, scale=1e-12)
    for k in a:
        if a[k] is not None:
            same(np.asarray(a[k]), np.asarray(b[k]), k)


# ------------------------------------------------------------ C03

KINDS = ["cubic", "linear", None, "quadratic", "nearest", "slinear", "previous", "cubic"]


def grid(x, y, kind, num):
    x, y = np.asarray(x, float), np.asarray(y, float)
    if kind is None:
        return x, y
    num = max(num, len(x))
    xn = np.linspace(x.min(), x.max(), num)
    return xn, interp1d(x, y, kind=kind)(xn)


def radii(rng, n, ints=False):
    if ints:
        return np.cumsum(rng.integers(1, 5, n))
    return np.cumsum(rng.uniform(0.3, 4, n))


def gen_c03(rng, i):
    n = int(rng.integers(4, 24))
    r = radii(rng, n, ints=i % 3 == 0)
    style = i % 5
    if style < 3:
        p = np.exp(-np.asarray(r) / rng.uniform(3, 20)) * 1.2
        p = np.minimum(p, 1)
        p = p + (rng.normal(0, 0.05, n) if style == 1 else 0)
    elif style == 3:
        p = rng.uniform(0, 1.2, n)
    else:
        p = np.round(rng.uniform(0, 1, n), 1)
    p[0] = np.nan
    err = None
    if i % 2:
        err = rng.uniform(0, 0.15, n)
        err[0] = np.nan if rng.random() < 0.5 else 5.0
    eta = float(rng.choice([0.2, 0.5, 0.3, rng.uniform(0.01, 0.95), np.nanmin(p), p[min(2, n - 1)]]))
    if not (eta > 0):
        eta = 0.2
    kind = KINDS[i % len(KINDS)]
    return {"r": r, "p": p, "err": err, "eta": eta, "kind": kind, "num": int(rng.choice([5, 37, 500, 5000])),
            "dflt": i % 11 == 0, "as": ["array", "array", "list"][i % 3], "obj": gen_obj(rng, i) if i % 4 == 1 else None}


def gen_obj(rng, i):
    """data and settings of a Petrosian object"""
    n = int(rng.integers(5, 16))
    r, A, L = gal(rng, n)
    return {"data": dict(r_list=r, area_list=A, flux_list=L, area_err=rng.uniform(0, 1, n) if i % 3 == 1 else None, flux_err=rng.uniform(0, 2, n) if (i // 2) % 4 else None),
            "set": dict(eta=float(rng.choice([.1, .3, .5])), epsilon=float(rng.choice([.5, 1, 1.5, 2.])), epsilon_fraction=float(rng.choice([.6, .8, .9])), total_flux_fraction=float(rng.choice([.5, .7, .9])),
                        interp_kind=["linear", "cubic", None, "quadratic"][(i // 4) % 4], interp_num=int(rng.choice([40, 300, 900])))}


def build_obj(o):
    return Petrosian(**{k: v if v is None else v.copy() for k, v in o["data"].items()}, **o["set"])


def obj_radius(o):
    d, s = o["data"], o["set"]
    P, E = K.calculate_petrosian(d["area_list"], d["flux_list"], area_err=d["area_err"], flux_err=d["flux_err"])
    return K.calculate_petrosian_r(d["r_list"], P, petrosian_err=E, eta=s["eta"], interp_kind=s["interp_kind"], interp_num=s["interp_num"])


def obj_fraction(o, f):
    d, s = o["data"], o["set"]
    rp, e = obj_radius(o)
    return K.fraction_to_r(f, d["r_list"], d["flux_list"], rp, flux_err=d["flux_err"], r_petrosian_err=e, epsilon=s["epsilon"], epsilon_fraction=s["epsilon_fraction"], interp_kind=s["interp_kind"], interp_num=s["interp_num"])


@prop("C03", (500, 6000), "random profiles and errors, every interpolation kind, eta on and between samples, against the threshold-search definition", gen_c03)
def c03(c):
    r, p, err = as_kind(c["r"], c["as"]), as_kind(c["p"], c["as"]), c["err"]
    r0, p0, e0 = copy.deepcopy(r), copy.deepcopy(p), copy.deepcopy(err)
    eta, kind, num = c["eta"], c["kind"], c["num"]
    if c["dflt"]:
        got = K.calculate_petrosian_r(r, p, petrosian_err=err)
        eta, kind, num = 0.2, "cubic", 5000
    else:
        got = K.calculate_petrosian_r(r, p, petrosian_err=err, eta=eta, interp_kind=kind, interp_num=num)
    need(len(got) == 2, "returns %d values", len(got))
    R = np.asarray(c["r"], float).copy()
    P = np.asarray(c["p"], float).copy()
    R[0], P[0] = 0, 1
    x, y = grid(R, P, kind, num)
    need(near_ok(got[0], x, y, eta, False), "r_petrosian %r is not the grid radius nearest to eta=%r (acceptable: %s)", got[0], eta, near_all(x, y, eta, False))
    if err is None or np.isnan(got[0]):
        need(np.isnan(got[1]), "error %r without profile errors or radius", got[1])
    else:
        E = np.asarray(c["err"], float).copy()
        E[0] = 0
        xu, yu = grid(R, P + E, kind, num)
        xl, yl = grid(R, P - E, kind, num)
        ok = [(u - l) / 2 for u in near_all(xu, yu, eta, False) for l in near_all(xl, yl, eta, False)]
        need(any((np.isnan(o) and np.isnan(got[1])) or abs(o - got[1]) <= 1e-9 * max(1, abs(o)) for o in ok),
             "r_petrosian_err %r, acceptable %s", got[1], ok)
    same(np.asarray(r), np.asarray(r0), "r_list")
    same(np.asarray(p), np.asarray(p0), "petrosian_list")
    if err is not None:
        same(err, e0, "petrosian_err")
    if c.get("obj"):
        p, want = build_obj(c["obj"]), obj_radius(c["obj"])
        need(among(p.r_petrosian, [want[0]]), "r_petrosian of the object is %r, its profile gives %r", p.r_petrosian, want[0])
        need(among(p.r_petrosian_err, [want[1]]), "r_petrosian_err of the object is %r, its profile gives %r", p.r_petrosian_err, want[1])


# ------------------------------------------------------------ C04, C05

def gen_c04(rng, i):
    n = int(rng.integers(5, 22))
    r = radii(rng, n, ints=i % 4 == 0)
    L = 100 * (1 - np.exp(-np.asarray(r, float) / rng.uniform(2, 15)))
    how = (i // 5) % 6
    if how == 1:
        L = L + rng.normal(0, 1.5, n)
    if how == 2:
        L = np.cumsum(rng.uniform(0, 9, n)) + 1
    if how in (3, 4):      # falls again after its maximum
        k = int(rng.integers(n // 2, n))
        L = np.concatenate([L[:k], L[k - 1] - np.cumsum(rng.uniform(0, 60 / n, n - k))])
    if i % 9 == 4:
        L = np.ceil(L).astype(int)
    eps = float(rng.choice([2.0, 1.0, 0.5, rng.uniform(0.3, 4)]))
    lo, hi = float(r[0]), float(r[-1])
    how = i % 8
    if how == 0:
        rp = float(rng.uniform(hi * 1.01, hi * 3) / eps)
    elif how == 1:
        rp = float(rng.uniform(0, lo * 0.99) / eps)
    elif how == 2:
        rp = [lo / eps, hi / eps, float("nan"), float("inf")][(i // 8) % 4]
    else:
        rp = float(rng.uniform(lo, hi) / eps)
    ef = rng.uniform(0, 2.5, n) if i % 2 else None
    if ef is not None and i % 6 == 1:
        ef = np.ceil(ef).astype(int)
    rpe = [None, float("nan"), float(rng.uniform(0, 2)), float(rng.uniform(0, 1.5) * hi), float(-rng.uniform(0, .7) * hi)][(i // 2) % 5]
    ee = float(rng.choice([0.99, 0.5, 0.8, 1.0]))
    return {"r": r, "L": L, "rp": rp, "ef": ef, "rpe": rpe, "f": float(rng.choice([0.5, 0.2, 0.8, 0.99, 0.9, rng.uniform(0.02, 1.3)])),
            "eps": eps, "ee": ee, "kind": ["cubic", "linear", None, "quadratic", "slinear"][i % 5], "num": int(rng.choice([5, 40, 700, 5000])),
            "dflt": i % 13 == 5, "obj": gen_obj(rng, i) if i % 4 == 1 else None}


def flux_at(r, L, kind, x):
    return float(interp1d(np.asarray(r, float), np.asarray(L, float), kind="cubic" if kind is None else kind)(x))


def spec_frac(f, r, L, rp, ef, rpe, eps, ee, kind, num):
    """(acceptable radii, acceptable errors)"""
    r, L = np.asarray(r, float), np.asarray(L, float)
    re = rp * eps
    if not (np.isfinite(re) and r.min() <= re <= r.max()):
        return [np.nan], [np.nan]
    target = flux_at(r, L, kind, re) * f / ee
    x, y = grid(r, L, kind, num)
    R = near_all(x, y, target, True)
    if ef is None:
        return R, [np.nan]
    ef = np.asarray(ef, float)
    d = 0.0 if rpe is None or np.isnan(rpe) else rpe
    lo = flux_at(r, L - ef, kind, min(max(re - d, r.min()), r.max()))
    hi = flux_at(r, L + ef, kind, max(min(re + d, r.max()), r.min()))
    s = (hi - lo) / 2
    xl, yl = grid(r, L - ef, kind, num)
    xu, yu = grid(r, L + ef, kind, num)
    E = [(u - l) / 2 for u in near_all(xl, yl, target + s, True) for l in near_all(xu, yu, target - s, True)]
    if any(np.isnan(v) for v in R):
        E = E + [np.nan]
    if all(np.isnan(v) for v in R):
        E = [np.nan]
    return R, E


def among(v, ok):
    return any((np.isnan(o) and np.isnan(v)) or abs(o - v) <= 1e-9 * max(1.0, abs(o)) for o in ok)


@prop("C04", (500, 6000), "random curves, radii in, on and outside the measured range, errors and radius errors of any size, all kinds", gen_c04)
def c04(c):
    keep = {k: copy.deepcopy(c[k]) for k in ("r", "L", "ef")}
    if c["dflt"]:
        a = dict(c, eps=2.0, ee=0.99, kind="cubic", num=5000, ef=None, rpe=None)
        got = K.fraction_to_r(c["f"], c["r"], c["L"], c["rp"])
    else:
        a = c
        got = K.fraction_to_r(c["f"], c["r"], c["L"], c["rp"], flux_err=c["ef"], r_petrosian_err=c["rpe"], epsilon=c["eps"],
                              epsilon_fraction=c["ee"], interp_kind=c["kind"], interp_num=c["num"])
    need(len(got) == 2, "returns %d values", len(got))
    re = a["rp"] * a["eps"]
    edge = any(abs(re - b) <= 1e-12 * abs(b) and re != b for b in (float(np.min(c["r"])), float(np.max(c["r"]))))
    if edge:
        return
    R, E = spec_frac(a["f"], a["r"], a["L"], a["rp"], a["ef"], a["rpe"], a["eps"], a["ee"], a["kind"], a["num"])
    need(among(got[0], R), "radius %r of fraction %r, acceptable %s", got[0], a["f"], R)
    need(among(got[1], E), "radius error %r, acceptable %s", got[1], E)
    for k in keep:
        if keep[k] is not None:
            same(c[k], keep[k], k)
    if c.get("obj"):
        obj_c04(c["obj"], c["f"])


def gen_c05(rng, i):
    c = gen_c04(rng, i)
    c["f1"] = float(rng.choice([0.2, 0.5, rng.uniform(0.05, 0.9)]))
    c["f2"] = float(rng.choice([0.8, 0.9, rng.uniform(0.05, 1.2)]))
    c["obj"] = gen_obj(rng, i) if i % 3 == 0 else None
    return c


def obj_c04(o, f):
    p, tf = build_obj(o), o["set"]["total_flux_fraction"]
    for a, g, want in (("r", p.fraction_flux_to_r(f), obj_fraction(o, f)[0]), ("error", p.fraction_flux_to_r_err(f), obj_fraction(o, f)[1]),
                       ("r_total_flux", p.r_total_flux, obj_fraction(o, tf)[0]), ("r_total_flux_err", p.r_total_flux_err, obj_fraction(o, tf)[1]),
                       ("r_half_light", p.r_half_light, obj_fraction(o, .5)[0]), ("r_half_light_err", p.r_half_light_err, obj_fraction(o, .5)[1]),
                       ("r without a fraction", p.fraction_flux_to_r(), obj_fraction(o, .5)[0]), ("error without a fraction", p.fraction_flux_to_r_err(), obj_fraction(o, .5)[1]),
                       ("r_50", p.r_50, obj_fraction(o, .5)[0]), ("r_50_err", p.r_50_err, obj_fraction(o, .5)[1])):
        need(among(g, [want]), "%s of the object is %r, its curve of growth gives %r", a, g, want)


@prop("C05", (300, 3000), "random curves and fraction pairs against the two flux-fraction radii; named indices of Petrosian objects", gen_c05)
def c05(c):
    kw = dict(flux_err=c["ef"], r_petrosian_err=c["rpe"], epsilon=c["eps"], epsilon_fraction=c["ee"], interp_kind=c["kind"], interp_num=c["num"])
    keep = {k: copy.deepcopy(c[k]) for k in ("r", "L", "ef")}
    got = K.calculate_concentration_index(c["f1"], c["f2"], c["r"], c["L"], c["rp"], **kw)
    ok1 = spec_frac(c["f1"], c["r"], c["L"], c["rp"], None, None, c["eps"], c["ee"], c["kind"], c["num"])[0]
    ok2 = spec_frac(c["f2"], c["r"], c["L"], c["rp"], None, None, c["eps"], c["ee"], c["kind"], c["num"])[0]
    conc(got, ok1, ok2, "concentration index")
    for k in keep:
        if keep[k] is not None:
            same(c[k], keep[k], k)
    if c.get("obj"):
        o = c["obj"]
        p = build_obj(o)
        for f1, f2, g in ((0.2, 0.8, p.concentration_index()), (0.2, 0.8, p.c2080), (0.5, 0.9, p.c5090), (c["f1"], c["f2"], p.concentration_index(c["f1"], c["f2"]))):
            conc(g if np.ndim(g) else [None, None, g], [obj_fraction(o, f1)[0]], [obj_fraction(o, f2)[0]], "index of the object for %r, %r" % (f1, f2))
        r = np.asarray(c["r"], float)
        p = Petrosian(r, np.pi * r ** 2, c["L"], flux_err=c["ef"], epsilon=c["eps"], epsilon_fraction=c["ee"], interp_kind=c["kind"], interp_num=c["num"], eta=0.4)
        for f1, f2, g in ((0.2, 0.8, p.concentration_index()), (0.2, 0.8, p.c2080), (0.5, 0.9, p.c5090), (c["f1"], c["f2"], p.concentration_index(c["f1"], c["f2"]))):
            ok1 = spec_frac(f1, r, c["L"], p.r_petrosian, None, None, c["eps"], c["ee"], c["kind"], c["num"])[0]
            ok2 = spec_frac(f2, r, c["L"], p.r_petrosian, None, None, c["eps"], c["ee"], c["kind"], c["num"])[0]
            conc(g if np.ndim(g) else [None, None, g], ok1, ok2, "index of fractions %r, %r" % (f1, f2))


def conc(got, ok1, ok2, what):
    need(len(got) == 3, "%s: %d results", what, len(got))
    for a in ok1:
        for b in ok2:
            if np.isnan(a) or np.isnan(b):
                want = (np.nan, np.nan, np.nan)
            else:
                with np.errstate(all="ignore"):
                    want = (a, b, 5 * np.log10(b / a))
            if all(g is None or among(g, [w]) for g, w in zip(got, want)):
                return
    raise Broken("%s: %s, acceptable radii %s / %s" % (what, got, ok1, ok2))


# ------------------------------------------------------------ C06

READS = ["r_petrosian", "r_petrosian_err", "r_epsilon", "r_epsilon_in_range", "r_total_flux", "r_total_flux_err", "total_flux",
         "total_flux_err", "half_flux", "half_flux_err", "r_half_light", "r_half_light_err", "r_50", "r_50_err", "c2080", "c5090",
         "petrosian_list", "petrosian_err", "r_list", "area_list", "flux_list", "area_err", "flux_err", "eta", "epsilon", "epsilon_fraction",
         "total_flux_fraction"]


def gal(rng, n):
    r = radii(rng, n)
    A = np.pi * r ** 2 * rng.uniform(0.5, 1)
    L = 50 * (1 - (1 + r / 4) * np.exp(-r / 4)) + rng.uniform(0, 0.2, n).cumsum() * 0.2
    return r, A, L


def gen_c06(rng, i):
    n = int(rng.integers(5, 13))
    r, A, L = gal(rng, n)
    ops = []
    for _ in range(int(rng.integers(3, 11))):
        k = rng.choice(["set", "set", "set", "read", "read", "copy", "mutate", "method", "plot", "readall", "arrays"], p=[.2, .15, .1, .15, .1, .08, .05, .1, .02, .03, .02])
        if k == "set":
            a = str(rng.choice(["eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "interp_kind", "interp_num"]))
            v = {"eta": lambda: float(rng.choice([.1, .2, .3, .5])), "epsilon": lambda: float(rng.choice([.7, 1., 1.5, 2., 3.])),
                 "epsilon_fraction": lambda: float(rng.choice([.5, .8, .99])), "total_flux_fraction": lambda: float(rng.choice([.5, .9, .99])),
                 "interp_kind": lambda: [None, "linear", "cubic"][int(rng.integers(3))], "interp_num": lambda: int(rng.choice([3, 50, 400]))}[a]()
            ops.append(["set", a, v, int(rng.integers(0, 3))])
        elif k == "read":
            ops.append(["read", str(rng.choice(READS)), None, int(rng.integers(0, 3))])
        elif k == "method":
            ops.append(["method", str(rng.choice(["fraction_flux_to_r", "fraction_flux_to_r_err", "concentration_index"])), float(rng.choice([.2, .5, .8])), int(rng.integers(0, 3))])
        elif k == "copy":
            ops.append(["copy", str(rng.choice(["copy", "deepcopy"])), None, int(rng.integers(0, 3))])
        else:
            ops.append([str(k), "", None, int(rng.integers(0, 3))])
    return {"r": r, "A": A, "L": L, "ea": rng.uniform(0, .5, n) if i % 3 == 0 else None, "ef": rng.uniform(0, 1, n) if i % 2 else None,
            "ops": ops, "init": {"eta": .2, "epsilon": 2.0} if i % 2 else {}, "int": i % 4 == 0, "num": int(rng.choice([30, 200]))}


def derived(p):
    out = {a: getattr(p, a) for a in READS}
    out["fr"] = p.fraction_flux_to_r(0.3)
    out["fre"] = p.fraction_flux_to_r_err(0.3)
    out["ci"] = np.asarray(p.concentration_index(0.3, 0.7), float)
    return out


def cmpd(a, b, what):
    for k in a:
        x, y = a[k], b[k]
        if x is None or y is None:
            need(x is None and y is None, "%s: %s is %s, a fresh object has %s", what, k, x, y)
        else:
            close(np.asarray(x, float), np.asarray(y, float), "%s: %s" % (what, k), rtol=1e-9)


@prop("C06", (110, 1500), "random sequences of setting changes, reads, copies, plots and caller mutations against fresh objects", gen_c06)
def c06(c):
    data = {k: (None if c[k] is None else c[k].copy()) for k in ("r", "A", "L", "ea", "ef")}
    mine = {k: (None if v is None else v.copy()) for k, v in data.items()}

    def build(s):
        p = Petrosian(data["r"].copy(), data["A"].copy(), data["L"].copy(), area_err=None if data["ea"] is None else data["ea"].copy(),
                      flux_err=None if data["ef"] is None else data["ef"].copy(), **s)
        return p
    st = dict(eta=.2, epsilon=2., epsilon_fraction=.99, total_flux_fraction=.99, interp_kind="cubic", interp_num=c["num"])
    st.update(c["init"])
    p = Petrosian(mine["r"], mine["A"], mine["L"], area_err=mine["ea"], flux_err=mine["ef"], **st)
    objs = [(p, st)]
    for op, a, v, t in c["ops"]:
        p, st = objs[t % len(objs)]
        if op == "set":
            setattr(p, a, v)
            st[a] = v
        elif op == "read":
            x = getattr(p, a)
            f = getattr(build(st), a)
            cmpd({a: x}, {a: f}, "read")
        elif op == "method":
            args = (v,) if a != "concentration_index" else (v, .9)
            x, f = getattr(p, a)(*args), getattr(build(st), a)(*args)
            cmpd({a: np.asarray(x, float)}, {a: np.asarray(f, float)}, "method")
        elif op == "copy":
            objs.append((getattr(copy, a)(p), dict(st)))
        elif op == "mutate":
            for k in mine:
                if mine[k] is not None:
                    mine[k] += 1.5
        elif op == "readall":
            derived(p)
        elif op == "plot":
            from matplotlib import pyplot as plt
            for f in (p.plot, p.plot_cog):
                try:                    # only the effect on the object is claimed
                    f()
                except Exception:
                    pass
                plt.close("all")
    for j, (p, st) in enumerate(objs):
        need(all(getattr(p, k) == v for k, v in st.items()), "settings of object %d changed: %s", j, {k: getattr(p, k) for k in st})
        cmpd(derived(p), derived(build(st)), "object %d" % j)
    p = objs[0][0]
    for k, a in (("r", "r_list"), ("A", "area_list"), ("L", "flux_list"), ("ea", "area_err"), ("ef", "flux_err")):
        if data[k] is not None:
            same(np.asarray(getattr(p, a)), data[k], a)


# ------------------------------------------------------------ C07

def gen_c07(rng, i):
    n = int(rng.integers(4, 16))
    r, A, L = gal(rng, n)
    if i % 4 == 1:
        r = np.cumsum(rng.integers(1, 4, n)).astype(int)
    if i % 7 == 3:
        L = np.cumsum(rng.uniform(.5, 5, n))
    return {"r": r, "A": np.pi * np.asarray(r, float) ** 2, "L": L, "ef": rng.uniform(0, 2 if i % 4 == 1 else 90, n) if i % 2 else None,
            "ea": rng.uniform(0, 1, n) if i % 3 == 1 else None,
            "kind": ["cubic", None, "linear", "quadratic", "nearest", "slinear", "zero", "previous", "next"][i % 9], "num": int(rng.choice([20, 300, 2000])),
            "eta": float(rng.choice([.1, .2, .5, .02])), "eps": float(rng.choice([.5, 1, 2, 3])), "ee": float(rng.choice([.5, .8, .99])), "tf": float(rng.choice([.5, .9, .99, 1.1]))}


@prop("C07", (350, 4000), "random objects, all interpolation kinds, radii in and out of range, with and without errors", gen_c07)
def c07(c):
    p = Petrosian(c["r"], c["A"], c["L"], area_err=c["ea"], flux_err=c["ef"], eta=c["eta"], epsilon=c["eps"], epsilon_fraction=c["ee"],
                  total_flux_fraction=c["tf"], interp_kind=c["kind"], interp_num=c["num"])
    rp, re = p.r_petrosian, p.r_epsilon
    close(re, rp * c["eps"], "r_epsilon", rtol=1e-12)
    for b in (float(np.min(c["r"])), float(np.max(c["r"]))) if rp > 0 else ():      # an epsilon radius on the edge of the measured radii
        q = p.copy() if hasattr(p, "copy") else copy.copy(p)
        for e in (b / rp, np.nextafter(b / rp, 0), np.nextafter(b / rp, np.inf)):
            q.epsilon = float(e)
            if q.r_epsilon == b:
                need(bool(q.r_epsilon_in_range), "r_epsilon_in_range is False for r_epsilon=%r in [%r, %r]", b, float(np.min(c["r"])), float(np.max(c["r"])))
    inr = bool(p.r_epsilon_in_range)
    lo, hi = float(np.min(c["r"])), float(np.max(c["r"]))
    if not (np.isfinite(re) and (abs(re - lo) < 1e-9 or abs(re - hi) < 1e-9)):
        need(inr == (lo <= re <= hi), "r_epsilon_in_range is %s for r_epsilon=%r in [%r, %r]", inr, re, lo, hi)
    for rad, fl, e, re_ in (("r_total_flux", "total_flux", "total_flux_err", "r_total_flux_err"), ("r_half_light", "half_flux", "half_flux_err", "r_half_light_err")):
        R, F, E, RE = getattr(p, rad), getattr(p, fl), getattr(p, e), getattr(p, re_)
        if np.isnan(R):
            need(np.isnan(F), "%s is %r but %s is undefined", fl, F, rad)
            need(np.isnan(E), "%s is %r but %s is undefined", e, E, rad)
            continue
        close(F, flux_at(c["r"], c["L"], c["kind"], R), fl, rtol=1e-9)
        if c["ef"] is None:
            need(np.isnan(E), "%s is %r without flux errors", e, E)
        else:
            d = np.abs(np.asarray(c["r"], float) - R)
            near = np.min(c["ef"][d <= d.min() + 1e-9])
            need(E >= near * (1 - 1e-9) or (np.isnan(E) and np.isnan(RE)), "%s is %r, below the flux error %r of the nearest aperture", e, E, near)
