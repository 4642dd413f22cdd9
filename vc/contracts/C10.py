"""segm_mask and masked_segm_image."""
from ..contract import *
from .. import fits, phot
from .common import *

S = "petrofit.segmentation"
SIZES = [{"ny": 2, "nx": 2, "nsrc": 2}, {"ny": 1, "nx": 3, "nsrc": 1}]
UNBOUNDED = ["labels", "catalogue"]      # lists of any length
FORMS = UNBOUNDED + ["int", "npint", "zero", "entry", "list1", "list2", "list3", "mixed", "entries", "empty"]


def entry(label):
    e = phot.SourceCatalog()
    e.label = label
    return e


def sources(h, form):
    """(argument, labels requested)"""
    shim.use("photutils.segmentation.SourceCatalog", "an entry's label is the integer label of its source")
    n = lambda k, np=False: h.int("lab%d" % k, np=np)
    if form in UNBOUNDED:
        m = h.dim("nsrc")
        lab = h.array("lab", (m,), "i")
        arg = loader.SList()
        arg._sym = None if isinstance(zint(m), int) else SSeq(m, (lambda k: lab.get(k)) if form == "labels" else (lambda k: entry(lab.get(k))))
        if arg._sym is None:
            arg = [lab.get(k) if form == "labels" else entry(lab.get(k)) for k in range(m)]
        return arg, Any(h, m, lab)
    if form == "int":
        return n(0), [n(0)]
    if form == "npint":
        return n(0, True), [n(0)]
    if form == "zero":
        return 0, [num(0)]
    if form == "entry":
        return entry(n(0, True)), [n(0)]
    if form == "empty":
        return [], []
    if form.startswith("list"):
        k = int(form[4:])
        return [n(j, j % 2 == 1) for j in range(k)], [n(j) for j in range(k)]
    if form == "mixed":
        return [entry(n(0, True)), n(1), n(2, True)], [n(0), n(1), n(2)]
    return [entry(n(0, True)), entry(n(1, True))], [n(0), n(1)]


def labels(h):
    ny, nx = h.dim("ny", 1), h.dim("nx", 1)
    d = h.array("segm", (ny, nx), "i")
    return phot.SegmentationImage(d), d, (ny, nx)


def racase(h, ev, d, form, labs, mbg, im=None, fill=None, box=False, bad=0):
    if isinstance(labs, Any):
        labs = [labs.lab.get(k) for k in range(h.sizes["nsrc"])]
    kind = {"int": "int", "npint": "npint", "zero": "zero", "entry": "int", "bad": "bad"}.get(form, "list")
    ls = [int(ev.num(x)) for x in labs] or [0]
    seg = ev.nd(d)
    ok = all(v >= 0 for row in seg["__nd__"] for v in row) and any(v > 0 for row in seg["__nd__"] for v in row)
    if not ok or form == "empty":
        return None
    ny, nx = h.sizes["ny"], h.sizes["nx"]
    return ev.d(seg=seg, kind=kind, pick=ls, mbg=mbg, im=ev.nd(im) if im is not None else {"__nd__": [[1.5] * nx] * ny, "dtype": "float64", "shape": [ny, nx]}, fill=fill, ccd=box, bad=bad, dtype="float64")


class Any:
    """labels of a list of any length"""
    def __init__(self, h, m, lab):
        self.h, self.m, self.lab = h, m, lab


def member(d, labs, mbg):
    def f(j, i):
        v = num(d.get(j, i)).t
        if isinstance(labs, Any):
            e = labs.h.some(labs.m, lambda k: labs.lab.get(k).t == v)
            return e if mbg else Or(e, v == 0)
        alts = [v == x.t for x in labs] + ([] if mbg else [v == 0])
        return Or(*alts) if alts else FALSE
    return f


def same_list(h, arg, keep):
    if isinstance(keep, SSeq):
        h.goal("frame.sources", arg._sym is keep)
    elif isinstance(arg, list):
        h.goal("frame.sources", len(arg) == len(keep) and all(a is b for a, b in zip(arg, keep)))


MIXED = lambda form, **_: "a list of one entry and two labels" if form == "mixed" else None


@unit("C10.mask", bound=MIXED, sizes=SIZES, variants={"form": FORMS, "mbg": ["default", False, True]}, skip=lambda form, mbg: form == "empty" and mbg is True)
def mask(h, form, mbg):
    f = h.load().module(S).segm_mask
    seg, d, shape = labels(h)
    src, labs = sources(h, form)
    keep = (getattr(src, "_sym", None) or list(src)) if isinstance(src, list) else None
    bg = mbg is True
    h.case = lambda ev: racase(h, ev, d, form, labs, bg)
    out = h.result(f, src, seg, **({} if mbg == "default" else {"mask_background": mbg}))
    w = member(d, labs, bg)
    h.goal("boolean", isinstance(out, SArr) and out._k == "b")
    h.ensure_array("labels", out, shape, lambda j, i: SBool(w(j, i)))
    h.goal("same-segmentation", seg.data is d)
    h.unchanged(d)
    same_list(h, src, keep)


@unit("C10.masked-image", bound=MIXED, sizes=SIZES, variants={"form": FORMS, "mbg": ["default", True], "fill": ["default", "none", "real"], "box": ["array", "ccd", "cutout"]},
      skip=lambda form, mbg, fill, box: form == "empty" and mbg is True or form in ("list1", "list2", "entries", "npint") and box == "cutout")
def image(h, form, mbg, fill, box):
    f = h.load().module(S).masked_segm_image
    seg, d, shape = labels(h)
    src, labs = sources(h, form)
    keep = (getattr(src, "_sym", None) or list(src)) if isinstance(src, list) else None
    a = h.array("image", shape, "f", nan=True)
    arg = {"ccd": fits.CCDData, "cutout": phot.Cutout2D}.get(box, lambda x: x)(a)
    v = h.real("fill")
    kw = {} if fill == "default" else {"fill": None if fill == "none" else v}
    bg = mbg is True
    if bg:
        kw["mask_background"] = True
    h.case = lambda ev: racase(h, ev, d, form, labs, bg, a, ev.num(v) if fill == "real" else None, box != "array")
    out = h.result(f, src, arg, seg, **kw)
    h.goal("container", type(out) is type(arg) and out is not arg)
    if box != "array":
        h.goal("container.data", arg.data is a and out.data is not a)
        out = out.data
    w = member(d, labs, bg)
    other = v if fill == "real" else NAN()
    h.ensure_array("pixels", out, shape, lambda j, i: arr.ite_el(simp(w(j, i)), num(a.get(j, i)), other))
    h.unchanged(a)
    h.unchanged(d)
    same_list(h, src, keep)


@unit("C10.rejected", variants={"what": ["str", "float", "npfloat", "tuple", "set", "None", "dict", "array"], "which": ["segm_mask", "masked_segm_image"]})
def bad(h, what, which):
    f = getattr(h.load().module(S), which)
    h.sizes = h.sizes
    d = h.array("segm", (3, 3), "i")
    seg = phot.SegmentationImage(d)
    a = h.array("image", (3, 3), "f")
    n = h.int("lab0")
    s = {"str": "1", "float": h.real("x"), "npfloat": h.real("x", np=True), "tuple": (n, n), "set": {1}, "None": None, "dict": {}, "array": h.array("labs", (2,), "i")}[what]
    h.rejects(f, *((s, seg) if which == "segm_mask" else (s, a, seg)))
    h.unchanged(a)
    h.unchanged(d)
