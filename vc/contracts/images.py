"""PSFConvolvedModel2D.evaluate: inputs and specification (C13, C14, C16)."""
from ..contract import *
from .. import astro

MM = "petrofit.modeling.models"
NP = 2


def submodel(h, np=NP):
    """an arbitrary two-dimensional model: each point's value is a function of the point and the parameters"""
    shim.use("astropy.modeling 2-D models", "evaluate(x, y, *params) computes each element from that element's coordinates and the parameters only, into a new array")
    f = core.UF("F", *([RS] * (2 + np) + [RS]))
    fn = core.UF("F_nan", *([RS] * (2 + np) + [BS]))

    def evaluate(x, y, *ps):
        ps = [toreal(one(p).t) for p in ps]
        return ew2(lambda u, v: SNum(f(toreal(num(u).t), toreal(num(v).t), *ps), fn(toreal(num(u).t), toreal(num(v).t), *ps), "f", True), x, y)
    d = {"evaluate": staticmethod(evaluate), "n_inputs": 2}
    for k in range(np):
        d["p%d" % k] = astro.Parameter("p%d" % k, default=h.real("default%d" % k))
    return type("Sub", (astro.FittableModel,), d)


def ew2(f, x, y):
    return arr.ew(f, x, y, kind="f")


def one(p):
    if isinstance(p, SArr):
        return num(p.get(*[0] * p.ndim))
    return num(p)


def fval(x, y, ps):
    f = core.UF("F", *([RS] * (2 + NP) + [RS]))
    fn = core.UF("F_nan", *([RS] * (2 + NP) + [BS]))
    a = [toreal(x.t), toreal(y.t)] + [toreal(p.t) for p in ps]
    return SNum(f(*a), fn(*a), "f")


class Pixels:
    """a list of pixels: x[k] = x0 + a[k], y[k] = y0 + b[k], a and b non-negative integers that start at 0; A, B are the largest"""

    def __init__(self, h, tag="", rect=False):
        self.h = h
        self.x0, self.y0 = h.real("x0" + tag), h.real("y0" + tag)
        if h.bounded:
            self.A, self.B = h.sizes["A" + tag], h.sizes["B" + tag]
            sh = (self.B + 1, self.A + 1)
            self.shape = sh
            self.a = SArr(sh, "i", lambda j, i: num(i) if isinstance(i, int) else SNum(i, FALSE, "i"))
            self.b = SArr(sh, "i", lambda j, i: num(j) if isinstance(j, int) else SNum(j, FALSE, "i"))
        elif rect:
            nx, ny = h.dim("nx" + tag, 1), h.dim("ny" + tag, 1)
            self.A, self.B = simp(T(nx) - 1), simp(T(ny) - 1)
            self.shape = (ny, nx)
            self.a = SArr(self.shape, "i", lambda j, i: SNum(T(i), FALSE, "i"))
            self.b = SArr(self.shape, "i", lambda j, i: SNum(T(j), FALSE, "i"))
        else:
            n = h.dim("n" + tag, 1)
            self.shape = (n,)
            self.A, self.B = z3.Int("A" + tag), z3.Int("B" + tag)
            for nm, mx in (("a", self.A), ("b", self.B)):
                f = core.UF(nm + tag, IS, IS)
                lo, hi = h.c.fresh_int("lo"), h.c.fresh_int("hi")
                h.assume(And(lo >= 0, lo < T(n), hi >= 0, hi < T(n), f(lo) == 0, f(hi) == mx, mx >= 0))
                h.c.uni([n], lambda k, f=f, mx=mx: And(f(T(k)) >= 0, f(T(k)) <= mx))
                h.c.touch(lo), h.c.touch(hi)
                setattr(self, nm, SArr((n,), "i", lambda k, f=f: SNum(f(T(k)), FALSE, "i")))
        R = lambda t: SNum(z3.ToReal(T(t)), FALSE, "f")
        self.x = SArr(self.shape, "f", lambda *i: self.x0 + R(num(self.a.get(*i)).t), name="x")
        self.y = SArr(self.shape, "f", lambda *i: self.y0 + R(num(self.b.get(*i)).t), name="y")
        h.frames += [("x", self.x, 0), ("y", self.y, 0)]
        for src, mn, val in ((self.x, True, self.x0), (self.y, True, self.y0), (self.x, False, self.x0 + R(self.A)), (self.y, False, self.y0 + R(self.B)),
                             (self.a, False, SNum(T(self.A), FALSE, "i")), (self.b, False, SNum(T(self.B), FALSE, "i"))):
            self.extreme(src, mn, val)
        self.N = simp(If(T(self.A) >= T(self.B), T(self.A), T(self.B)) + 1)
        d = h.c.decide(T(self.A) >= T(self.B))
        if d is not None:
            self.N = simp(T(self.A if d else self.B) + 1)
        self.N = zint(self.N)

    def extreme(self, src, mn, val):
        """lemma: the extreme of the coordinate list; afterwards the code's min()/max() yields this term"""
        h = self.h
        m = arr.minmax(src, mn)
        h.goal("lemma.extreme", toreal(m.t) == toreal(val.t))
        key = ("min" if mn else "max", arr.token(src), False)
        h.c.memo_lib[key] = SNum(val.t, FALSE, val.k, True)


def spec(P, ps, f, p, psf, pa, window=None):
    """the image on the N x N pixel square: sub-pixel means at PSF resolution, PSF, mean per data pixel

    f: oversampling (term or int), p: PSF factor, pa: rotation or None, window: (x, y, size, factor)"""
    N = P.N

    def grid(n, x0, y0, q):
        side = zint(simp(T(n) * T(q)))
        fq = SNum(z3.ToReal(T(q)), FALSE, "f", True)
        pos = lambda o, k: o + ((SNum(z3.ToReal(T(k)), FALSE, "f") + 0.5) / fq - 0.5)
        return SArr((side, side), "f", lambda J, I: fval(pos(x0, I), pos(y0, J), ps))

    def mean(im, q):
        if isinstance(q, int) and q == 1:
            return im
        q = SNum(T(q), FALSE, "i")
        r = astro.block_reduce(im, q)
        return r / (q * q)
    if window is None:
        m = zint(core.n_floordiv(SNum(T(f), FALSE, "i"), SNum(T(p), FALSE, "i")))
        im = mean(grid(N, P.x0, P.y0, f), m)
    else:
        wx, wy, size, wf = window
        rnd = lambda v: arr.round_(v, 0)
        half = SNum(core.n_floordiv(SNum(T(size), FALSE, "i"), num(2)).t, FALSE, "i")
        ox, oy = rnd(wx) - half, rnd(wy) - half
        m = zint(core.n_floordiv(SNum(T(wf), FALSE, "i"), SNum(T(p), FALSE, "i")))
        base = grid(N, P.x0, P.y0, p)
        win = mean(grid(size, ox, oy, wf), m)
        # window corner relative to the image, in data pixels
        ci = core.to_int(rnd(ox - P.x0)).t
        cj = core.to_int(rnd(oy - P.y0)).t

        def el(J, I):
            J, I, q = T(J), T(I), T(p)
            lo = lambda c: simp(If(c >= 0, c, z3.IntVal(0)) * q)
            up = lambda c: simp(If(c + T(size) <= T(N), c + T(size), T(N)) * q)
            inside = And(J >= lo(cj), J < up(cj), I >= lo(ci), I < up(ci))
            return arr.ite_el(simp(inside), win.get(simp(J - cj * q), simp(I - ci * q)), base.get(J, I))
        one_ = (m == 1) if isinstance(m, int) else None
        im = base if one_ else SArr(base._shape, "f", el)
    if psf is not None:
        if pa is not None:
            psf = astro.rotate(psf, pa, reshape=False)
        im = astro.convolve(im, psf, mode="same")
    return mean(im, p)


def config(h, kind):
    """(oversample value, factor, psf factor value, factor, psf?) of a valid configuration"""
    d = lambda nm: h.dim(nm, 2)
    n = lambda t: SNum(T(t), FALSE, "i") if not isinstance(t, int) else t
    if kind == "plain":
        return None, 1, None, 1, False
    if kind == "over":
        f = d("f")
        return n(f), f, None, 1, False
    if kind == "psf":
        return None, 1, None, 1, True
    if kind == "psf+over":
        f = d("f")
        return n(f), f, None, 1, True
    if kind == "psf+equal":
        p = d("p")
        return n(p), p, n(p), p, True
    if kind == "psf+factor":
        p, m = d("p"), d("m")
        f = p * m if isinstance(p, int) else simp(T(p) * T(m))
        return n(f), f, n(p), p, True
    raise KeyError(kind)


def make(h, Sub, over, pf, psf, **kw):
    """a wrapped model in this configuration, made by the real constructor"""
    cls = h.mods.PSFConvolvedModel2D
    obj = h.result(cls, Sub(), psf=psf, oversample=over, psf_oversample=pf)
    return obj


def params(h, pa, boxed):
    ps = [h.real("q%d" % k) for k in range(NP)]
    vals = ps + [pa if pa is not None else num(0.0)]
    if boxed:
        vals = [SArr((1,), "f", lambda i, v=v: v) for v in vals]
    return ps, vals


def same_state(h, name, p, q, depth=0):
    """two objects hold the same values"""
    if isinstance(p, (SNum, SBool)) or isinstance(q, (SNum, SBool)) or type(p) in (int, float) and type(q) in (int, float):
        if p is None or q is None or isinstance(p, (str, tuple, list)) or isinstance(q, (str, tuple, list)):
            return h.fail(name, "different kinds of value")
        return h.ensure_eq(name, p, q)
    if isinstance(p, SArr) and isinstance(q, SArr):
        if p is q:
            return h.ok(name)
        return h.ensure_array(name, p, q._shape, lambda *i: q.get(*i))
    if isinstance(p, (list, tuple)) and isinstance(q, (list, tuple)):
        if len(p) != len(q):
            return h.fail(name, "different lengths")
        for k, (a, b) in enumerate(zip(p, q)):
            same_state(h, "%s.%d" % (name, k), a, b, depth + 1)
        return
    if isinstance(p, dict) and isinstance(q, dict):
        if set(map(str, p)) != set(map(str, q)):
            return h.fail(name, "different keys")
        for k in p:
            same_state(h, "%s.%s" % (name, k), p[k], q[k], depth + 1)
        return
    if isinstance(p, astro.Parameter) and isinstance(q, astro.Parameter):
        return same_state(h, name, p.value, q.value, depth + 1)
    if isinstance(p, astro.FittableModel) and isinstance(q, astro.FittableModel) and depth < 3:
        return same_state(h, name, p.__dict__, q.__dict__, depth + 1)
    if p is None or q is None or isinstance(p, (str, bool)) or isinstance(q, (str, bool)):
        return h.ok(name) if p is q or (type(p) is type(q) and p == q) else h.fail(name, "%r and %r" % (type(p).__name__, type(q).__name__))
    if type(p) is type(q):
        return h.ok(name)
    return h.fail(name, "%r and %r" % (type(p).__name__, type(q).__name__))
