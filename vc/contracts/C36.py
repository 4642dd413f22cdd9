"""Petrosian plots: what is drawn, where, and that nothing changes."""
from ..contract import *
from .. import shim, phot
from .common import *
from .C06 import fields, same_field

ASSUMPTIONS = ["matplotlib draws what its drawing functions are given, on the axes they are called on (error bars, bands, lines across the axes, outlines)"]
CURVES = ("errorbar", "plot", "scatter")


def log(h):
    return list(getattr(h.c, "draws", []))


def args_of(a, k, *names):
    """the named arguments of a drawing call, positional or by keyword"""
    out = list(a[:len(names)])
    for n in names[len(out):]:
        out.append(k.get(n))
    return out


def elsewhere(h, draws, root, mine):
    """nothing is drawn on other axes, and the current axes are not asked for when axes are given"""
    for path, a, k in draws:
        if path[:len(root)] == root or path == ("plt", "gca"):
            continue
        if mine and path[:3] == ("plt", "gca", "()"):
            return h.fail("only-the-given-axes", "%s is called on the current axes" % (path[3:],))
        if path[0] == "plt" and mine and path[1:] in (("plot",), ("scatter",), ("errorbar",), ("axhline",), ("axvline",), ("title",), ("xlabel",), ("ylabel",), ("legend",), ("tick_params",), ("minorticks_on",), ("xlim",), ("ylim",), ("fill_between",)):
            return h.fail("only-the-given-axes", "plt.%s draws on the current axes" % path[1])
        raise Unsupported("drawing call %s" % (path,))
    h.ok("only-the-given-axes")


def arrays(draws, root):
    """drawing calls on the axes whose first two arguments are sequences"""
    out = []
    for path, a, k in draws:
        if path[:-1] == root and path[-1] in CURVES:
            x, y = args_of(a, k, "x", "y")
            if isinstance(x, SArr) and x.ndim == 1:
                out.append((path[-1], x, y, k if path[-1] == "errorbar" else {}, a))
    return out


def xlabel(h, draws, root, u):
    """the radius axis is labelled, with the unit when there is one"""
    got = [args_of(a, k, "xlabel")[0] for path, a, k in draws if path == root + ("set_xlabel",)]
    if len(got) != 1 or not isinstance(got[0], str):
        raise Unsupported("label of the radius axis")
    h.goal("radius-axis-label", TRUE if got[0].strip() and (not u or u in got[0]) else FALSE)


def lines(h, draws, root, name, want, what):
    """the full-width lines are exactly the wanted ones, in some order"""
    got = [args_of(a, k, "y" if name == "axhline" else "x")[0] for path, a, k in draws if path == root + (name,)]
    got = [num(0) if g is None else num(scalar(g)) for g in got]
    if len(got) != len(want):
        return h.fail(what, "%d lines, expected %d" % (len(got), len(want)))
    left = list(want)
    for g in got:
        hit = next((i for i, w in enumerate(left) if same_value(h, g, w)), None)
        if hit is None:
            hit = 0
        h.ensure_eq(what, g, left.pop(hit))
    if not want:
        h.ok(what)


def vec(h, name, got, want):
    if not isinstance(got, SArr):
        raise Unsupported("%s of type %s" % (name, type(got).__name__))
    h.ensure_array(name, got, want._shape, lambda *i: want.get(*i))


def defined(x):
    return x is not None and not bool(SBool(num(x).nan))


def start(h, errs, kind):
    cls = load_obj(h)
    d = Data(h, errs)
    s = settings(h, "", kind)
    o, ref = build(h, cls, d, s), build(h, cls, d, s)
    vers = {k: x._ver for k, x in fields(o).items() if isinstance(x, SArr)}
    keep = fields(o)
    return d, s, o, ref, (keep, vers)


def intact(h, d, o, before):
    keep, vers = before
    now = fields(o)
    if now.keys() == keep.keys() and all(same_field(h, now[k], keep[k]) for k in now):
        h.ok("object-unchanged")
    else:
        raise Unsupported("the fields of the object changed")      # caches are judged by C06 and by running the code
    for k, x in now.items():
        if isinstance(x, SArr) and k in vers:
            h.goal("data-not-written.%s" % k, x._ver == vers[k])
    h.unchanged(*d.list)


def draw(h, o, how, mine, kw):
    ax = shim.Plot(None, ("mine",))
    h.c.draws = []
    kw = dict(kw)
    if mine:
        kw["ax"] = ax
    r = h.result(getattr(o, how), **kw)
    root = ("mine",) if mine else ("plt", "gca", "()")
    h.goal("axes-returned", r is ax if mine else getattr(r, "_path", None) == root)
    return log(h), root


ALPHA = {"default": {}, "off": {"err_alpha": None}, "zero": {"err_alpha": 0}}


@unit("C36.profile", variants={"errs": ["", "flux", "area+flux"], "kind": ["cubic", None], "mine": [True, False], "marks": [True, False], "alpha": list(ALPHA), "unit_": ["pix", None]},
      skip=lambda errs, kind, mine, marks, alpha, unit_: (alpha != "default" and errs != "area+flux") or (kind is None and (not mine or not marks)) or (unit_ is None and (not mine or alpha != "default")))
def profile(h, errs, kind, mine, marks, alpha, unit_):
    """the profile against radius with its errors; eta and the Petrosian radius marked"""
    d, s, o, ref, before = start(h, errs, kind)
    draws, root = draw(h, o, "plot", mine, dict(ALPHA[alpha], plot_r=marks, radius_unit=unit_))
    elsewhere(h, draws, root, mine)
    xlabel(h, draws, root, unit_)
    P, E = h.result(getattr, ref, "petrosian_list"), h.result(getattr, ref, "petrosian_err")
    rp, re = h.result(getattr, ref, "r_petrosian"), h.result(getattr, ref, "r_petrosian_err")
    curve(h, draws, root, d.r, P, E, alpha == "default", "profile")
    mk = marks and defined(rp)
    lines(h, draws, root, "axhline", [num(0)] + ([s["eta"]] if marks else []), "horizontal-marks")
    lines(h, draws, root, "axvline", [rp] if mk else [], "vertical-marks")
    pts = [(p, a, k) for p, a, k in draws if p[:-1] == root and p[-1] in CURVES and not isinstance(args_of(a, k, "x")[0], SArr)]
    for p, a, k in pts:
        x, y = args_of(a, k, "x", "y")
        if not mk:
            return h.fail("point", "a point is marked")
        h.ensure_eq("point.radius", x, rp)
        h.ensure_eq("point.eta", y, s["eta"])
        if p[-1] == "errorbar" and k.get("xerr") is not None:
            e = num(scalar(k["xerr"]))
            h.goal("point.error", And(Not(num(re).nan), Not(e.nan), e.t >= 0, Or(e.t == num(re).t, e.t == -num(re).t)))
    if mk and defined(re) and not any(p[-1] == "errorbar" and k.get("xerr") is not None for p, a, k in pts):
        raise Unsupported("no error bar of the radius through errorbar")
    intact(h, d, o, before)


def curve(h, draws, root, x, y, e, band, tag):
    cs = arrays(draws, root)
    if len(cs) != 1:
        raise Unsupported("%d curves drawn" % len(cs))
    m, gx, gy, k, a = cs[0]
    vec(h, tag + ".radius", gx, x)
    vec(h, tag + ".value", gy, y)
    if e is None:
        if m == "errorbar" and (k.get("yerr") is not None or len(a) > 2):
            return h.fail(tag + ".error", "errors are drawn although there are none")
    else:
        if m != "errorbar":
            raise Unsupported("errors not drawn by errorbar")
        ye = args_of(a, k, "x", "y", "yerr")[2]
        if ye is None:
            return h.fail(tag + ".error", "the errors are not drawn")
        vec(h, tag + ".error", ye, e)
    fb = [args_of(a, k, "x", "y1", "y2") for path, a, k in draws if path == root + ("fill_between",)]
    want = e is not None and band
    h.goal(tag + ".band", TRUE if len(fb) == (1 if want else 0) else FALSE)
    if want and len(fb) == 1:
        vec(h, tag + ".band.radius", fb[0][0], x)
        lo = SArr(y._shape, "f", lambda *i: core.to_float(y.get(*i)) - core.to_float(e.get(*i)))
        hi = SArr(y._shape, "f", lambda *i: core.to_float(y.get(*i)) + core.to_float(e.get(*i)))
        vec(h, tag + ".band.low", fb[0][1], lo)
        vec(h, tag + ".band.high", fb[0][2], hi)


@unit("C36.cog", variants={"errs": ["", "area", "flux", "area+flux"], "kind": ["cubic", None], "mine": [True, False], "marks": [True, False], "alpha": list(ALPHA), "unit_": ["pix", None, ""]},
      skip=lambda errs, kind, mine, marks, alpha, unit_: (alpha != "default" and errs != "area+flux") or (kind is None and (not mine or not marks)) or (unit_ != "pix" and (not mine or alpha != "default" or errs)))
def cog(h, errs, kind, mine, marks, alpha, unit_):
    """the curve of growth with its errors; half-light and total radius and flux marked when both are defined"""
    d, s, o, ref, before = start(h, errs, kind)
    draws, root = draw(h, o, "plot_cog", mine, dict(ALPHA[alpha], plot_r=marks, radius_unit=unit_))
    xlabel(h, draws, root, unit_)
    elsewhere(h, draws, root, mine)
    curve(h, draws, root, d.r, d.L, d.ef, alpha == "default", "cog")
    rs, fs = [], []
    if marks:
        for rn, fn in (("r_half_light", "half_flux"), ("r_total_flux", "total_flux")):
            r, f = h.result(getattr, ref, rn), h.result(getattr, ref, fn)
            if defined(r) and defined(f):
                rs.append(r)
                fs.append(f)
    lines(h, draws, root, "axvline", rs, "vertical-marks")
    lines(h, draws, root, "axhline", fs, "horizontal-marks")
    for p, a, k in draws:
        if p[:-1] == root and p[-1] in CURVES:
            x, y = args_of(a, k, "x", "y")
            if not isinstance(x, SArr):
                hit = [i for i in range(len(rs)) if same_value(h, num(scalar(x)), rs[i])]
                if not hit:
                    return h.fail("point", "a point at neither radius is marked")
                h.ensure_eq("point.flux", y, fs[hit[0]])
    intact(h, d, o, before)


@unit("C36.ellipses", variants={"kind": ["cubic", None], "dflt": [False, True]}, budget=200)
def ellipses(h, kind, dflt):
    """the four radii that are defined and positive are outlined with the given centre, elongation and orientation"""
    d, s, o, ref, before = start(h, "", kind)
    x, y, el, th = h.real("x"), h.real("y"), h.real("elong"), h.real("theta")
    h.assume(el.t > 0)
    h.c.draws = []
    h.result(o.imshow, **({} if dflt else dict(position=(x, y), elong=el, theta=th)))
    if dflt:
        x, y, el, th = num(0), num(0), num(1), num(0)
    draws = log(h)
    got = []
    for p, a, k in draws:
        if p == ("aperture", "plot"):
            got.append(a[0])
        elif p[0] != "plt" or p[1] not in ("scatter", "gca"):
            raise Unsupported("drawing call %s" % (p,))
    want = []
    rad = [d.fraction(h, s, num(0.5))[0], h.result(getattr, ref, "r_total_flux"), d.fraction(h, s, num(0.2))[0], d.fraction(h, s, num(0.8))[0]]
    for r in rad:
        if defined(r) and bool(num(r) > 0):
            want.append(r)
    if len(got) != len(want):
        return h.fail("outlines", "%d outlines, expected %d" % (len(got), len(want)))
    h.ok("outlines")
    left = list(want)
    for g in got:
        hit = next((i for i, w in enumerate(left) if same_value(h, g.a, w)), 0)
        w = num(left.pop(hit))
        h.ensure_eq("semi-major-axis", g.a, w)
        h.goal("semi-minor-axis", And(Not(g.b.nan), toreal(g.b.t) * toreal(num(el).t) == toreal(w.t)))
        for n, v, q in (("x", g.pos[0], x), ("y", g.pos[1], y), ("theta", g.theta, th)):
            h.ensure_eq("ellipse." + n, v, q)
    intact(h, d, o, before)
