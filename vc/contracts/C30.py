"""natural_sort."""
from ..contract import *
from .. import text, loader
from ..text import SStr, Text, Digits
from .common import *

U = "petrofit.utils"
ASSUMPTIONS = ["C30: strings of any number of digit runs in lists of any length are proved; the units C30.strings (listed numbers of digit runs) and C30.numbers (ints mixed with floats) are bounded and serve counterexamples",
               "C30: re.split('([0-9]+)') yields alternating texts and ASCII digit runs; str.lower is a function of the text; list comparison is lexicographic"]

RUNS = [()] + [(a,) for a in (0, 1, 3)] + [(a, b) for a in range(4) for b in range(4)] + [(a, b, c) for a in range(3) for b in range(3) for c in range(3)] + [(1, 1, 1, 1), (2, 0, 1, 2), (0, 0, 0, 0), (2, 2, 2, 2)]


def strings(h, runs):
    toks, l = [], []
    for j, k in enumerate(runs):
        t = []
        for i in range(k + 1):
            x = Text(z3.Int("raw%d_%d" % (j, i)), z3.Int("low%d_%d" % (j, i)), z3.Bool("dig%d_%d" % (j, i)))
            h.assume(And(x.raw >= 0, x.low >= 0, (x.raw == 0) == (x.low == 0), Implies(x.dig, x.raw > 0)))
            if 0 < i < k:
                h.assume(x.raw > 0)
            toks.append(x)
            t.append(x)
            if i < k:
                d = Digits(z3.Int("val%d_%d" % (j, i)), z3.Int("run%d_%d" % (j, i)))
                h.assume(And(d.val >= 0, d.raw > 0))
                toks.append(d)
                t.append(d)
        l.append(SStr(t))
    # equal texts have equal values; no text equals a digit run
    for i, x in enumerate(toks):
        for y in toks[:i]:
            if x.digit != y.digit:
                d, t = (x, y) if x.digit else (y, x)
                h.assume(And(t.raw != d.raw, t.low != d.raw))
            else:
                h.assume(Implies(x.raw == y.raw, x.val == y.val if x.digit else And(x.low == y.low, x.dig == y.dig)))
                if not x.digit:
                    h.assume(And(Implies(x.raw == y.low, x.low == y.low), Implies(y.raw == x.low, x.low == y.low)))     # lower() twice is lower()
    return l


def lt_eq(x, y):
    """the order of the statement: (x before y, x same key as y)"""
    eq, lt = TRUE, []
    for a, b in zip(x.toks, y.toks):
        p, q = (a.val, b.val) if a.digit else (a.low, b.low)
        lt.append(And(eq, p < q))
        eq = And(eq, p == q)
    if len(x.toks) < len(y.toks):
        lt.append(eq)
    return Or(*lt) if lt else FALSE, eq if len(x.toks) == len(y.toks) else FALSE


def words(ev, l):
    """the strings of a countermodel, with the ranks of texts spelt out in order"""
    m = ev.m
    val = lambda t: m.eval(t, model_completion=True).as_long()
    tx = [t for s in l for t in s.toks if not t.digit]
    ranks = sorted({val(t.low) for t in tx} - {0})
    spell = {r: "abcdefghijklmnopqrstuvwxyz"[i % 26] for i, r in enumerate(ranks)}
    out = []
    for s in l:
        w = ""
        for t in s.toks:
            if t.digit:
                w += str(val(t.val))
            elif val(t.low):
                c = spell[val(t.low)]
                w += "\u00b2" if z3.is_true(m.eval(t.dig, model_completion=True)) else c if val(t.raw) == val(t.low) else c.upper()
        out.append(w)
    return out


def spec_order(h, S, n):
    """(before, same): the order of the statement between strings i and j, by the first pair in which they differ"""
    J = z3.Function("spec_differ", IS, IS, IS)
    te = lambda a, b, j: S.low(a, j) == S.low(b, j)
    de = lambda a, b, j: S.val(a, j) == S.val(b, j)

    def found(a, b):
        j, k, m = J(a, b), S.runs(a), S.runs(b)
        h.c.touch(j, "pair")
        return And(j >= 0, j <= k, j <= m, Implies(And(j < k, j < m), Not(And(te(a, b, j), de(a, b, j)))))
    h.forall([n, n], found, ["item", "item"])
    h.forall([n, n, S.longest], lambda a, b, j: Implies(j < J(a, b), And(te(a, b, j), de(a, b, j))), ["item", "item", "pair"])

    def before(a, b):
        j, k, m = J(a, b), S.runs(a), S.runs(b)
        return Or(S.low(a, j) < S.low(b, j), And(te(a, b, j), z3.If(And(j < k, j < m), S.val(a, j) < S.val(b, j), k < m)))

    def same(a, b):
        j, k, m = J(a, b), S.runs(a), S.runs(b)
        return And(j == k, j == m, te(a, b, j))
    return before, same


def sorted_list(h, f, n, el, index, order):
    """sort a list of any length; index(item): its place in the given list"""
    l = loader.SList()
    l._sym = SSeq(n, el)
    given = l._sym
    r = h.result(f, l)
    h.goal("input-unchanged", TRUE if l._sym is given else FALSE)
    if not isinstance(r, list):
        return h.fail("list", "result is not a list")
    s = getattr(r, "_sym", None)
    if s is None:
        raise Unsupported("sorted list")
    h.goal("length", T(s.n) == T(n))
    p, q = h.c.fresh_int("at"), h.c.fresh_int("at")
    h.assume(And(p >= 0, p < q, q < T(n)))
    i, j = index(s.fn(p)), index(s.fn(q))
    if i is None or j is None:
        raise Unsupported("the result holds other objects than the input")
    for t in (i, j):
        h.c.touch(t, "item")
    h.goal("permutation", And(i != j, i >= 0, i < T(n), j >= 0, j < T(n)))
    before, same = order
    h.goal("sorted-and-stable", Or(before(i, j), And(same(i, j), i < j)))


@unit("C30.list")
def sort_list(h):
    """strings of any number of digit runs, lists of any length"""
    f = h.load().module(U).natural_sort
    n = h.dim("n", 2)
    S = text.Strings("s", n)
    h.forall([n], lambda i: And(S.runs(i) >= 0, S.runs(i) < S.longest), ["item"])
    h.forall([n, S.longest], lambda i, j: And(S.raw(i, j) >= 0, S.low(i, j) >= 0, (S.raw(i, j) == 0) == (S.low(i, j) == 0), S.val(i, j) >= 0, S.draw(i, j) > 0,
                                              Implies(S.dig(i, j), S.raw(i, j) > 0), Implies(And(j > 0, j < S.runs(i)), S.raw(i, j) > 0)), ["item", "pair"])
    order = spec_order(h, S, n)
    sorted_list(h, f, n, S, lambda x: x.i if isinstance(x, text.SymStr) else None, order)


@unit("C30.numberlist", variants={"k": ["i", "f"]})
def sort_number_list(h, k):
    """lists of numbers of any length; the place of an item is found through distinguishable items"""
    f = h.load().module(U).natural_sort
    n = h.dim("n", 2)
    a = h.array("v", n, k)

    def el(i):
        x = a.get(T(i))
        return SNum(x.t, x.nan, x.k)

    def index(x):
        t = x.t if isinstance(x, SNum) else None
        return t.arg(0) if t is not None and z3.is_app(t) and t.decl().name() == "v" else None
    val = lambda i: toreal(a.get(i).t)
    sorted_list(h, f, n, el, index, (lambda i, j: val(i) < val(j), lambda i, j: val(i) == val(j)))


@unit("C30.strings", bounded_only=True, sizes=[{"digit runs of each string": "in the unit name"}], variants={"runs": RUNS})
def sort_strings(h, runs):
    f = h.load().module(U).natural_sort
    l = strings(h, runs)
    given = list(l)
    h.case = lambda ev: ev.d(l=words(ev, l))
    r = h.result(f, l)
    check(h, r, given, l, lt_eq)


@unit("C30.numbers", bounded_only=True, sizes=[{"type of each number": "in the unit name"}], variants={"kinds": ["i", "f", "ii", "ff", "if", "iii", "fff", "ifi", "iiii", "ffff"]})
def sort_numbers(h, kinds):
    f = h.load().module(U).natural_sort
    l = [h.int("n%d" % i) if k == "i" else h.real("n%d" % i) for i, k in enumerate(kinds)]
    given = list(l)
    h.case = lambda ev: ev.d(l=[ev.num(x) for x in given])
    r = h.result(f, l)
    check(h, r, given, l, lambda x, y: (toreal(x.t) < toreal(y.t), toreal(x.t) == toreal(y.t)))


def check(h, r, given, l, order):
    if not isinstance(r, list):
        return h.fail("list", "result is not a list")
    r = list(r)
    h.goal("input-unchanged", TRUE if len(l) == len(given) and all(a is b for a, b in zip(l, given)) else FALSE)
    at = [[i for i, y in enumerate(given) if y is x] for x in r]
    if len(r) != len(given):
        return h.fail("permutation", "%d items of %d" % (len(r), len(given)))
    if any(len(a) != 1 for a in at):
        raise Unsupported("the result holds other objects than the input")
    at = [a[0] for a in at]
    if sorted(at) != list(range(len(given))):
        return h.fail("permutation", "an item is repeated or lost")
    h.ok("permutation")
    for p, q, i, j in zip(r, r[1:], at, at[1:]):
        lt, eq = order(p, q)
        h.goal("sorted-and-stable", Or(lt, eq) if i < j else lt)
