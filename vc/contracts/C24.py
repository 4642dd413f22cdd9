"""Correction grids: one row per pair, columns consistent."""
import types
from ..contract import *
from .. import table, loader
from .common import *

CO = "petrofit.petrosian.correction"
ASSUMPTIONS = ["C24: the grid of pairs is proved for lists of any length >= 1 (C24.grid); empty lists and the object identity of rows at the listed sizes (C24.rows)",
               "C24: rendering (C13, C21), aperture photometry (C08), Petrosian radii, flux fractions and concentration (C03-C05) and the analytic relations (C18) enter by contract: results are functions of the arguments",
               "C24: total fluxes are positive, so that the curve of growth has at least one sample"]
SHAPES = [(0, 0), (0, 2), (1, 0), (1, 1), (2, 3)]
NROW = 30


def exact6(x):
    """np.round(x, 6)"""
    return arr.round_(num(x), 6)


def cfg(h, psf, over):
    f = h.array("psf", (h.dim("kpsf", 1), h.dim("kpsf2", 1))) if psf else None
    o = {"default": ("x_0", "y_0", 10, 50), "int": h.int("oversample"), "window": ("x_0", "y_0", h.int("osize"), h.int("ofactor"))}[over]
    return f, o, h.int("psf_oversample") if psf else None


def table_of(h, out):
    """(rows, names) of the returned table"""
    if not isinstance(out, table.Table):
        return h.fail("table", "result is not a Table")
    if out._made is None or out._made[1] is None or not isinstance(out._made[0], list):
        raise Unsupported("table not built from rows and names")
    if out.written:
        raise Unsupported("a table is written to")
    return out._made


@unit("C24.rows", bound="lists of the lengths in the unit name", variants={"shape": SHAPES, "kind": ["list", "array", "int"], "psf": [False, True], "over": ["default", "int", "window"], "cpu": ["none", 1, 4]},
      skip=lambda shape, kind, psf, over, cpu: (kind != "list" or psf or over != "default") and shape not in ((2, 2), (2, 3)) or cpu == 4 and shape == (0, 0))
def rows(h, shape, kind, psf, over, cpu):
    """one row per pair, indices outermost, each computed with the requested PSF and sampling"""
    calls = []

    def one(args):
        a = list(args)
        row = [h.real("cell%d_%d" % (len(calls), k)) for k in range(NROW)]
        calls.append((a, row))
        return row
    h.load({CO + "._generate_petrosian_correction": lambda real, m: one})
    f = h.loader.module(CO).generate_petrosian_sersic_correction
    nn, nr = shape
    ns = [h.real("n%d" % i) for i in range(nn)]
    rs = [(h.int if kind == "int" else h.real)("r%d" % i) for i in range(nr)]
    ps, o, po = cfg(h, psf, over)
    kw = {} if over == "default" else {"oversample": o}
    if psf:
        kw.update(psf=ps, psf_oversample=po)
    if cpu != "none":
        kw["n_cpu"] = cpu
    an, ar = (asarr(ns), asarr(rs)) if kind == "array" else (ns, rs)
    out = h.result(f, None, n_list=an, r_eff_list=ar, **kw)
    got = table_of(h, out)
    if got is None:
        return
    data, names = got
    h.goal("names-distinct", TRUE if len(set(names)) == len(names) else FALSE)
    pairs = [(n, r) for n in ns for r in rs]
    if len(data) != len(pairs):
        return h.fail("one-row-per-pair", "%d rows for %d pairs" % (len(data), len(pairs)))
    h.ok("one-row-per-pair")
    for row, (n, r) in zip(data, pairs):
        rec = [a for a, rr in calls if rr is row]
        if not rec:
            raise Unsupported("a row is not the list of one evaluation")
        a = rec[0]
        if len(a) != 6:
            raise Unsupported("arguments of a row")
        h.ensure_eq("row.r_eff", a[0], r)
        h.goal("row.n", Or(eqn(num(scalar(a[1])), num(n)), eqn(num(scalar(a[1])), exact6(n))))
        h.goal("row.psf", a[2] is ps or psf and isinstance(a[2], SArr) and same_value(h, a[2], ps))
        h.goal("row.oversample", same_value(h, a[3], o))
        h.goal("row.psf_oversample", a[4] is None if po is None else a[4] is not None and same_value(h, a[4], po))
    if psf:
        h.unchanged(ps)
    if kind != "array":
        h.goal("lists-unchanged", TRUE if len(ns) == nn and len(rs) == nr else FALSE)


@unit("C24.file", variants={"path": ["none", "default", "positional", "keyword", "denied"], "fmt": [None, "ascii.ecsv", "fits"], "overwrite": ["default", True, False], "cpu": ["none", 4]},
      skip=lambda path, fmt, overwrite, cpu: cpu == 4 and (fmt, overwrite) != (None, "default"))
def file(h, path, fmt, overwrite, cpu):
    """the returned table is written to the named file, in the named format and no other way"""
    h.load({CO + "._generate_petrosian_correction": lambda real, m: lambda args: [num(float(k)) for k in range(NROW)]})
    f = h.loader.module(CO).generate_petrosian_sersic_correction
    table.WRITES.clear()
    table.DENY[:] = ["grid.file"] if path == "denied" else []
    kw = {} if path == "default" and fmt is None else {"out_format": fmt}
    if overwrite != "default":
        kw["overwrite"] = overwrite
    if cpu != "none":
        kw["n_cpu"] = cpu
    a = {"none": (None,), "keyword": ()}.get(path, ("grid.file",))
    if path == "keyword":
        kw["output_file_name"] = "grid.file"
    ns, rs = [h.real("n0"), h.real("n1")], [h.real("r0"), h.real("r1")]
    out = h.result(f, *a, n_list=ns, r_eff_list=rs, **kw)
    table.DENY[:] = []
    if table_of(h, out) is None:
        return
    w = list(table.WRITES)
    if path == "none":
        return h.goal("nothing-written", TRUE if not w else FALSE)
    h.goal("written-once", TRUE if len(w) == 1 else FALSE)
    for t, p, fm, ow in w:
        h.goal("the-returned-table", TRUE if t is out else FALSE)
        h.goal("path", TRUE if isinstance(p, str) and p == "grid.file" else FALSE)
        h.goal("format", TRUE if fm == fmt else FALSE)
        h.goal("overwrite", TRUE if bool(ow) == (overwrite is True) else FALSE)


@unit("C24.defaults", variants={"given": ["none", "n", "r"], "cpu": ["none", 4]})
def defaults(h, given, cpu):
    """the pairs of a grid for which a list is not given"""
    h.load({CO + "._generate_petrosian_correction": lambda real, m: lambda args: [num(scalar(args[1])), num(scalar(args[0]))] + [num(0.0)] * (NROW - 2)})
    f = h.loader.module(CO).generate_petrosian_sersic_correction
    mine = [h.real("x0"), h.real("x1")]
    kw = {"none": {}, "n": {"n_list": mine}, "r": {"r_eff_list": mine}}[given]
    if cpu != "none":
        kw["n_cpu"] = cpu
    got = table_of(h, h.result(f, None, **kw))
    if got is None:
        return
    ns = mine if given == "n" else [num(0.5 * k) for k in range(1, 10)]
    rs = mine if given == "r" else [num(5.0 * k) for k in range(2, 21)]
    data = got[0]
    if len(data) != len(ns) * len(rs):
        return h.fail("one-row-per-pair", "%d rows for %d pairs" % (len(data), len(ns) * len(rs)))
    for row, (n, r) in zip(data, [(n, r) for n in ns for r in rs]):
        h.goal("row.n", Or(eqn(num(row[0]), n), eqn(num(row[0]), exact6(n))))
        h.ensure_eq("row.r_eff", row[1], r)


def listed(a):
    """a list with the elements of the array"""
    n = a._shape[0]
    if isinstance(zint(n), int):
        return [a.get(z3.IntVal(i)) for i in range(zint(n))]
    l = loader.SList()
    l._sym = SSeq.of(a)
    return l


@unit("C24.grid", sizes=[{"count_n": 2, "count_r": 3, "kpsf": 3, "kpsf2": 3}], variants={"kind": ["list", "array", "int"], "psf": [False, True], "over": ["default", "int", "window"], "cpu": ["none", 1, 4]})
def grid(h, kind, psf, over, cpu):
    """lists of any length: row a * len(r_eff_list) + b is the row of (n_list[a], r_eff_list[b])"""
    ps, o, po = cfg(h, psf, over)
    cell = [core.UF("cell%d" % k, core.RS, core.RS, core.RS) for k in range(NROW)]

    def one(args):
        a = list(args)
        if len(a) != 6:
            raise Unsupported("arguments of a row")
        h.goal("row.psf", a[2] is ps or psf and isinstance(a[2], SArr) and same_value(h, a[2], ps))
        h.goal("row.oversample", same_value(h, a[3], o))
        h.goal("row.psf_oversample", a[4] is None if po is None else a[4] is not None and same_value(h, a[4], po))
        r, n = num(scalar(a[0])), num(scalar(a[1]))
        h.goal("row.numbers", And(Not(r.nan), Not(n.nan)))
        return [SNum(f(toreal(r.t), toreal(n.t)), FALSE, "f", True) for f in cell]
    h.load({CO + "._generate_petrosian_correction": lambda real, m: one})
    f = h.loader.module(CO).generate_petrosian_sersic_correction
    nn, nr = h.dim("count_n", 1), h.dim("count_r", 1)
    ns, rs = h.array("n", nn), h.array("r", nr, "i" if kind == "int" else "f")
    kw = {} if over == "default" else {"oversample": o}
    if psf:
        kw.update(psf=ps, psf_oversample=po)
    if cpu != "none":
        kw["n_cpu"] = cpu
    an, ar = (ns, rs) if kind == "array" else (listed(ns), listed(rs))
    out = h.result(f, None, n_list=an, r_eff_list=ar, **kw)
    got = table_of(h, out)
    if got is None:
        return
    data, names = got
    h.goal("names-distinct", TRUE if len(set(names)) == len(names) else FALSE)
    s = getattr(data, "_sym", None)
    if s is None and h.sizes is None:
        raise Unsupported("rows of a table")
    h.goal("one-row-per-pair", T(len(data) if s is None else s.n) == T(nn) * T(nr))
    if s is None and len(data) != nn * nr:
        return
    for a, b in h.index((nn, nr)):
        row = data[a * nr + b] if s is None else s.fn(T(a) * T(nr) + T(b))
        if not isinstance(row, list) or len(row) != NROW:
            raise Unsupported("a row is not the list of one evaluation")
        n, r = num(ns.get(T(a))), num(rs.get(T(b)))
        g = [num(x) for x in row]
        at = g[0].t.children() if z3.is_app(g[0].t) and g[0].t.decl().eq(cell[0]) else None
        for k in range(NROW):
            if k and at and z3.is_app(g[k].t) and g[k].t.decl().eq(cell[k]) and all(z3.eq(x, y) for x, y in zip(g[k].t.children(), at)):
                h.goal("row.cells", Not(g[k].nan))      # the same evaluation as cell 0
            else:
                h.goal("row.cells", And(Not(g[k].nan), Or(*[g[k].t == cell[k](toreal(r.t), toreal(x.t)) for x in (n, exact6(n))])))
    h.unchanged(ns)
    h.unchanged(rs)
    if psf:
        h.unchanged(ps)


class Seen:
    """what the row is computed from"""


def sersic_results(h):
    def total(h, args, k):
        x = maybe(h, "enclosed")
        h.assume(And(Not(x.nan), x.t > 0))
        return x

    def radius(h, args, k):
        x = maybe(h, "radius")
        h.assume(And(Not(x.nan), x.t > 0))
        return x
    return {CO + ".sersic_enclosed": pure_contract("sersic_enclosed", total), CO + ".sersic_enclosed_inv": pure_contract("sersic_enclosed_inv", radius)}


def row_stubs(h, S):
    S.wrapped, S.images, S.phot = [], [], []

    class Wrapped:
        def __init__(self, model, psf=None, oversample=None, psf_oversample=None, **k):
            if k:
                raise Unsupported("PSFConvolvedModel2D(%s)" % sorted(k))
            self.__dict__.update(model=model, psf=psf, oversample=oversample, psf_oversample=psf_oversample)
            S.wrapped.append(self)

        def __setattr__(self, k, v):
            raise Unsupported("a rendered model is changed")

        def __getattr__(self, k):
            raise Unsupported("PSFConvolvedModel2D.%s" % k)

    def image(model, size, mode="center", factor=1, center=None):
        if mode != "center" or num(factor).t.as_long() != 1:
            raise Unsupported("model_to_image(mode=)")
        im = types.SimpleNamespace(model=model, size=size, center=center)
        S.images.append(im)
        return im

    def photometry(image, position, r_list, **k):
        for nm in ("error", "mask"):
            if k.get(nm) is not None:
                raise Unsupported("radial_photometry(%s=)" % nm)
        R = asarr(r_list)
        n = R._shape[0]
        L, A = h.array("L", n), h.array("A", n)
        h.assume(T(n) >= 1)
        h.forall([n], lambda i: A.get(i).t > 0, ["A"])
        h.assume(num(L.get(z3.IntVal(0))).t > 0)
        S.phot.append(types.SimpleNamespace(image=image, position=position, R=R.copy(), L=L, A=A, elong=k.get("elong", 1.0), method=k.get("method", "exact")))
        return (L, A, None)
    return {CO + ".PSFConvolvedModel2D": lambda real, m: Wrapped, CO + ".model_to_image": stub(image), CO + ".radial_photometry": stub(photometry)}


class Curve(Data):
    def __init__(self, R, L, A):
        self.r, self.L, self.A, self.ea, self.ef = R, L, A, None, None


DEF = {"eta": num(0.2), "epsilon": num(2), "epsilon_fraction": num(0.99), "total_flux_fraction": num(0.99), "interp_kind": "cubic", "interp_num": num(5000)}


def undefined_without_radius(stub_of):
    """callee contracts strengthened: every result is undefined when the Petrosian radius is (C04, C05)"""
    def result(h, args, k):
        r = stub_of(h, args, k)
        rp = args["r_petrosian"]
        if rp is None:
            return r
        h.assume(Implies(num(scalar(rp)).nan, And(*[num(x).nan for x in r])))
        return r
    return result


MEAS = dict(OBJ)
MEAS[PS + ".fraction_to_r"] = pure_contract("fraction_to_r", undefined_without_radius(fraction_result))
MEAS[PS + ".calculate_concentration_index"] = pure_contract("calculate_concentration_index", undefined_without_radius(concentration_result))


@unit("C24.row", budget=110, variants={"psf": [False, True], "over": ["default", "int"], "kind": ["f", "i"], "part": ["n<1,r<7", "n<1,r>=7", "n<2", "n>=2"]},
      skip=lambda psf, over, kind, part: (over != "default") != psf or (kind == "i" and psf))
def row(h, psf, over, kind, part):
    """the columns of the row of one pair"""
    S = Seen()
    h.load({**{k: mk(h) for k, mk in MEAS.items()}, **{k: mk(h) for k, mk in sersic_results(h).items()}, **row_stubs(h, S)})
    f = h.loader.module(CO).generate_petrosian_sersic_correction
    n, r = h.real("n"), (h.int if kind == "i" else h.real)("r_eff")
    h.assume(And(n.t > 0, r.t > 0))
    q, rt = exact6(n).t, toreal(r.t)
    h.assume({"n<1,r<7": And(q > 0, q < 1, rt < 7), "n<1,r>=7": And(q > 0, q < 1, rt >= 7), "n<2": And(q >= 1, q < 2), "n>=2": q >= 2}[part])
    ps, o, po = cfg(h, psf, over)
    kw = {} if over == "default" else {"oversample": o}
    if psf:
        kw.update(psf=ps, psf_oversample=po)
    res = h.call(f, None, n_list=[n], r_eff_list=[r], **kw)
    if not res.ok:
        # the analytic radius lies outside the measured curve, or an index is undefined
        if "interpolation range" in str(res.exc) or "concentration_index" in str(res.exc) or "data points are needed" in str(res.exc):
            return h.ok("no-row")
        return h.fail("no-other-exception", "raises %s: %s" % (type(res.exc).__name__, str(res.exc)[:120]), res)
    got = table_of(h, res.value)
    if got is None:
        return
    data, names = got
    if len(data) != 1 or len(data[0]) != len(names):
        return h.fail("one-row", "%d rows" % len(data))
    col = dict(zip(names, data[0]))
    C_ = lambda k: scalar(col[k])
    n_ = num(C_("n"))
    h.goal("n", Or(eqn(n_, n), eqn(n_, exact6(n))))
    h.ensure_eq("r_eff", C_("r_eff"), r)
    if len(S.phot) != 1 or len(S.images) != 1 or len(S.wrapped) != 1:
        raise Unsupported("more than one image or photometry")
    ph, im, w = S.phot[0], S.images[0], S.wrapped[0]
    # the image
    if ph.image is not im or im.model is not w:
        raise Unsupported("the measured image is not the rendered one")
    h.goal("image.psf", w.psf is ps or psf and isinstance(w.psf, SArr) and same_value(h, w.psf, ps))
    h.goal("image.oversample", same_value(h, w.oversample, o))
    h.goal("image.psf_oversample", w.psf_oversample is None if po is None else w.psf_oversample is not None and same_value(h, w.psf_oversample, po))
    m = w.model
    if type(m).__name__ != "Sersic2D":
        raise Unsupported("rendered model %s" % type(m).__name__)
    P = {k: num(scalar(getattr(m, k).value)) for k in ("amplitude", "r_eff", "n", "x_0", "y_0", "ellip")}
    h.ensure_eq("model.r_eff", P["r_eff"], core.to_float(r))
    h.ensure_eq("model.n", P["n"], n_)
    h.ensure_eq("model.ellip", P["ellip"], num(0.0))
    if ph.elong is not None:
        h.ensure_eq("photometry.elong", ph.elong, num(1.0))
    # the photometry is centred on the model
    half = core.n_floordiv(num(scalar(im.size)), num(2)) if not isinstance(im.size, (tuple, list)) else None
    for k, c in enumerate(("x_0", "y_0")):
        off = num(0) if im.center is None else num(scalar(im.center[k])) - (half if half is not None else core.n_floordiv(num(scalar(im.size[k])), num(2)))
        h.goal("photometry.centre." + c, toreal((off + num(scalar(ph.position[k]))).t) == toreal(P[c].t))
    # analytic columns
    args = dict(amplitude=P["amplitude"], r_eff=C_("r_eff"), n=n_, ellip=num(0))
    tot = h.pure["sersic_enclosed"](r=float("inf"), **args)
    h.ensure_eq("sersic_L_inf", C_("sersic_L_inf"), tot)
    t99 = tot * num(0.99)
    for c, fr in (("sersic_r_20", 0.2), ("sersic_r_80", 0.8), ("sersic_r_99", 1.0)):
        h.ensure_eq(c, C_(c), h.pure["sersic_enclosed_inv"](f=t99 * num(fr), **args))
    # measured columns
    d = Curve(ph.R, ph.L, ph.A)
    rad = lambda s: d.radius(h, s)[0]
    frac = lambda s, q: d.fraction(h, s, num(q))[0]
    for c, e in (("p02", 0.2), ("p03", 0.3), ("p04", 0.4), ("p05", 0.5)):
        h.ensure_eq(c, C_(c), rad(dict(DEF, eta=num(e))))
    h.ensure_eq("p0502", C_("p0502"), num(5) * core.f_log(num(C_("p02")) / num(C_("p05")), "log10"))
    h.ensure_eq("p0302", C_("p0302"), num(5) * core.f_log(num(C_("p02")) / num(C_("p03")), "log10"))
    rp = rad(DEF)
    h.goal("default-radius-is-p02", eqn(num(C_("p02")), rp))
    h.ensure_eq("u_epsilon", C_("u_epsilon"), num(2))
    cur = dict(DEF, epsilon=num(C_("c_epsilon")))
    for t, s in (("u", DEF), ("c", cur)):
        for q, fr in (("50", 0.5), ("20", 0.2), ("80", 0.8)):
            h.ensure_eq("%s_r_%s" % (t, q), C_("%s_r_%s" % (t, q)), frac(s, fr))
        h.ensure_eq(t + "_r_99", C_(t + "_r_99"), frac(s, 0.99))
        h.ensure_eq(t + "_c2080", C_(t + "_c2080"), d.index(h, s, num(0.2), num(0.8))[2])
        h.ensure_eq(t + "_c5090", C_(t + "_c5090"), d.index(h, s, num(0.5), num(0.9))[2])
        h.ensure_eq(t + "_epsilon_50", C_(t + "_epsilon_50"), num(C_(t + "_r_50")) / rp)
    h.ensure_eq("u_epsilon_80", C_("u_epsilon_80"), num(C_("u_r_80")) / rp)
    # the curve of growth reaches the analytic flux at the corrected radii
    ux, ui = shim.np_unique(d.L, return_index=True)
    cog = shim.interp1d(d.L[ui], d.r[ui], kind="linear")
    for c, fr in (("c_epsilon", 1.0), ("c_epsilon_80", 0.8)):
        h.ensure_eq(c, C_(c), cog.val(t99 * num(fr)) / rp)
