"""Image displays: what is shown, and that nothing changes."""
from ..contract import *
from .. import arr, fits, phot, shim
from .common import *
from .C36 import args_of

ASSUMPTIONS = ["matplotlib shows the image it is given, with the limits it is given, on the current axes; a label image is shown as its labels; an aperture outlines itself on the axes it is given"]
SIZES = [{"ny": 2, "nx": 3}]
QUIET = {("plt", n) for n in ("title", "xlabel", "ylabel", "gca", "legend", "colorbar", "tight_layout", "gcf")}
FIGURES = {("plt", n) for n in ("figure", "subplot", "show", "savefig", "close", "clf", "cla")}


def image(h, k="f"):
    ny, nx = h.dim("ny", 1), h.dim("nx", 1)
    a = h.array("image", (ny, nx), k, nan=k == "f")
    return a, ny, nx


def limits(h, v):
    return {} if v == "default" else dict(vmin=h.real("vmin"), vmax=h.real("vmax"))


def run(h, f, *a, **k):
    h.c.draws = []
    h.result(f, *a, **k)
    out = []
    for path, a, k in h.c.draws:
        if path in FIGURES:
            raise Unsupported("call of %s" % ".".join(path))
        if path == ("fig",) or path == ("ax",):
            raise Unsupported("a new figure")
        out.append((path[1:] if path[0] == "plt" and path[1] != "gca" else path[3:] if path[:3] == ("plt", "gca", "()") else path, a, k))
    return out


def plain(x):
    for _ in range(3):
        if isinstance(x, (fits.CCDData, phot.Cutout2D, phot.SegmentationImage)):
            x = x.data
    return x


def shown(h, draws):
    out = []
    for p, a, k in draws:
        if p == ("imshow",):
            out.append((plain(args_of(a, k, "X")[0]), k, a))
        elif p and p[0] in ("pcolormesh", "contour", "contourf", "matshow", "add_patch", "add_artist"):
            raise Unsupported("shown by %s" % (p,))
    return out


def is_image(h, name, im, want, v, kw):
    x, k, a = im
    if not isinstance(x, SArr) or x.ndim != 2:
        raise Unsupported("image of type %s" % type(x).__name__)
    if len(a) > 1:
        raise Unsupported("positional options of imshow")
    h.ensure_array(name, x, want._shape, lambda *i: want.get(*i))
    if k.get("origin") not in (None, "upper") or k.get("extent") is not None:
        raise Unsupported("placement of the image")
    if kw:
        norm = k.get("norm")
        if norm is not None:
            raise Unsupported("norm")
        for n in ("vmin", "vmax"):
            if k.get(n) is None:
                if v:
                    return h.fail("%s.%s" % (name, n), "the limit is not passed")
            else:
                h.ensure_eq("%s.%s" % (name, n), k[n], v[n])
        if not v and (k.get("vmin") is not None or k.get("vmax") is not None):
            h.fail(name + ".limits", "limits nobody asked for")


@unit("C41.residual", sizes=SIZES, variants={"k": ["f", "i"], "v": ["default", "given"]})
def residual(h, k, v):
    """the image with the pixels of every segment at 0"""
    a, ny, nx = image(h, k)
    lab = h.array("segm", (ny, nx), "i")
    kw = limits(h, v)
    f = h.load().module("petrofit.segmentation").plot_segment_residual
    ims = shown(h, run(h, f, phot.SegmentationImage(lab), a, **kw))
    h.goal("one-image", len(ims) == 1)
    want = SArr(a._shape, k, lambda y, x: arr.ite_el(num(lab.get(y, x)).t != 0, SNum(z3.IntVal(0) if k == "i" else z3.RealVal(0), FALSE, k), num(a.get(y, x))))
    is_image(h, "image", ims[0], want, kw, True)
    h.unchanged(a)
    h.unchanged(lab)


@unit("C41.segments", sizes=SIZES, variants={"k": ["f", "i"], "v": ["default", "given"], "im": [True, False], "title": [True, False]})
def segments(h, k, v, im, title):
    """the segments, over the image when there is one"""
    a, ny, nx = image(h, k)
    lab = h.array("segm", (ny, nx), "i")
    kw = limits(h, v)
    if title:
        kw2 = dict(kw, title="a title")
    else:
        kw2 = kw
    f = h.load().module("petrofit.segmentation").plot_segments
    draws = run(h, f, phot.SegmentationImage(lab), **dict({"image": a} if im else {}, **kw2))
    ims = shown(h, draws)
    h.goal("images", len(ims) == (2 if im else 1))
    if im:
        is_image(h, "image", ims[0], a, kw, True)
    is_image(h, "segments", ims[-1], lab, {}, False)
    al = ims[-1][1].get("alpha")
    if im:
        h.goal("image-visible-below", al is not None and num(al).t < 1)
    tt = [args_of(a_, k_, "label")[0] for p, a_, k_ in draws if p in (("title",), ("set_title",))]
    h.goal("title", tt == (["a title"] if title else []))
    h.unchanged(a)
    h.unchanged(lab)


@unit("C41.target", sizes=SIZES, variants={"k": ["f", "i"], "v": ["default", "given"], "size": ["default", "real", "int"], "box": ["array", "ccd"]})
def target(h, k, v, size, box):
    """the image around the target, which is marked"""
    a, ny, nx = image(h, k)
    kw = limits(h, v)
    x, y = h.real("x"), h.real("y")
    if size != "default":
        s = h.real("size") if size == "real" else h.int("size")
        h.assume(s.t > 0)
        kw2 = dict(kw, size=s)
    else:
        s, kw2 = num(SNum(z3.If(T(ny) > T(nx), T(ny), T(nx)), FALSE, "i")), kw
    f = h.load().module("petrofit.utils").plot_target
    draws = run(h, f, fits.CCDData(a) if box == "ccd" else a, (x, y), **kw2)
    ims = shown(h, draws)
    h.goal("one-image", len(ims) == 1)
    is_image(h, "image", ims[0], a, kw, True)
    for n, c in (("xlim", x), ("ylim", y)):
        got = [(p, a_, k_) for p, a_, k_ in draws if p in ((n,), ("set_" + n,))]
        if len(got) != 1:
            if any(p in (("axis",), ("set",)) for p, _, _ in draws):
                raise Unsupported("limits through axis")
            h.fail(n, "%d settings of the window" % len(got))
            continue
        p, a_, k_ = got[0]
        lo, hi = args_of(a_, k_, *(("left", "right") if n == "xlim" else ("bottom", "top")))
        if isinstance(lo, (tuple, list)) and hi is None:
            lo, hi = lo
        st = toreal(num(s).t)
        h.goal(n + ".low", And(Not(num(lo).nan), 2 * toreal(num(lo).t) == 2 * toreal(c.t) - st))
        h.goal(n + ".high", And(Not(num(hi).nan), 2 * toreal(num(hi).t) == 2 * toreal(c.t) + st))
    pts = [args_of(a_, k_, "x", "y") for p, a_, k_ in draws if p in (("plot",), ("scatter",))]
    if not pts:
        h.fail("target", "not marked")
    for px, py in pts[:1]:
        px, py = [q[0] if isinstance(q, (list, tuple)) else q for q in (px, py)]
        h.ensure_eq("target.x", px, x)
        h.ensure_eq("target.y", py, y)
    h.unchanged(a)


@unit("C41.apertures", sizes=SIZES, variants={"k": ["f", "i"], "v": ["default", "given"], "im": [True, False], "n": [0, 1, 2, 3]}, bound="at most 3 apertures")
def apertures(h, k, v, im, n):
    """the image, and every aperture outlined on the current axes"""
    a, ny, nx = image(h, k)
    kw = limits(h, v)
    m = h.load().module("petrofit.photometry")
    aps = [h.result(m.radial_elliptical_aperture, (h.real("x"), h.real("y")), r, h.real("elong"), h.real("theta")) for r in radii(h, n)]
    h.c.draws = []
    draws = run(h, m.plot_apertures, **dict({"image": a} if im else {}, apertures=list(aps), **kw))
    ims = shown(h, draws)
    h.goal("images", len(ims) == (1 if im else 0))
    if im:
        is_image(h, "image", ims[0], a, kw, True)
    out = [(a_, k_) for p, a_, k_ in draws if p == ("aperture", "plot")]
    h.goal("outlines", len(out) == len(aps))
    for (a_, k_), w in zip(out, aps):
        h.goal("outline", a_[0] is w)
        ax = args_of(a_[1:], k_, "ax")[0] if k_.get("axes") is None else k_["axes"]
        h.goal("axes", ax is None or getattr(ax, "_path", None) == ("plt", "gca", "()"))
    h.unchanged(a)


class Outline(phot.Opaque):
    """an aperture of the list; remembers being drawn, and in which iteration"""

    def __init__(self, i, marks):
        self.i, self.marks = i, marks

    def plot(self, *a, **k):
        self.marks.append((T(self.i), list(C().loops_active), a, k))
        return shim.Plot()


@unit("C41.outlines", exact=True, sizes=[{"ny": 2, "nx": 3, "n": 2}, {"ny": 2, "nx": 3, "n": 7}, {"ny": 2, "nx": 3, "n": 0}], variants={"k": ["f", "i"], "v": ["default", "given"], "im": [True, False]})
def outlines(h, k, v, im):
    """every aperture of a list of any length is outlined once on the current axes"""
    a, ny, nx = image(h, k)
    n = h.dim("n", 0)
    kw = limits(h, v)
    m = h.load().module("petrofit.photometry")
    marks = []
    aps = [Outline(i, marks) for i in range(n)] if isinstance(n, int) else SSeq(n, lambda i: Outline(i, marks))
    draws = run(h, m.plot_apertures, **dict({"image": a} if im else {}, apertures=aps, **kw))
    ims = shown(h, draws)
    h.goal("images", len(ims) == (1 if im else 0))
    if im and ims:
        is_image(h, "image", ims[0], a, kw, True)
    if isinstance(n, int):
        h.goal("every-outline", sorted(int(str(i)) for i, *_ in marks) == list(range(n)))
    elif not marks:
        h.goal("every-outline", T(n) == 0)
    else:
        if any(len(loops) != 1 for _, loops, _, _ in marks):
            raise Unsupported("outlines drawn outside a loop over the apertures")
        h.goal("every-outline", And(len(marks) == 1, *[And(i == g.k, T(g.n) == T(n), g.lo == 0) for i, (g,), _, _ in marks]))
    for _, _, a_, k_ in marks:
        ax = args_of(a_, k_, "ax")[0] if k_.get("axes") is None else k_["axes"]
        h.goal("axes", ax is None or getattr(ax, "_path", None) == ("plt", "gca", "()"))
    h.unchanged(a)


def radii(h, n):
    el = h.real("elong")
    h.assume(el.t > 0)
    for i in range(n):
        r = h.real("r%d" % i)
        h.assume(r.t > 0)
        yield r
