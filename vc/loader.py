"""Runs the real source of /repo on symbolic values.

Each run parses the current files and executes them under CPython.  The only
rewriting (AST, listed in TRANSFORMS) replaces constructs whose CPython protocol
cannot return a symbolic value; everything else is the code as it is.
"""
import ast
import builtins
import ctypes
import dis
import math
import os
import sys
import types
import z3
from . import core, arr, shim, astro, units, fits, phot, sky, table, text
from .core import SNum, SBool, Unsupported, And, Or, Not, TRUE, FALSE, num, as_bool, zint, T, simp
from .arr import SArr, SSel, SSeq, C

TRANSFORMS = [
    "`x in y` / `x not in y` become calls that return a symbolic truth value",
    "`for` over a sequence of symbolic length runs its body once for an arbitrary index (list growth recorded per index)",
    "`[e for v in s]`, `any(e for v in s)` over a sequence of symbolic length evaluate e for an arbitrary index",
    "list displays create list objects that can hold a symbolic number of items",
    "`import` of numpy, scipy, astropy, photutils, matplotlib binds the library contracts of vc/shim.py",
]


class SList(list):
    """list display of the code under verification; may turn symbolic when a generic loop appends to it"""
    _sym = None

    def __getattribute__(self, name):
        return list.__getattribute__(self, name)

    def _sym_array(self):
        if self._sym is not None:
            return self._sym.arr()
        return arr.from_list(list(self))

    def __getitem__(self, i):
        if self._sym is not None:
            return self._sym[i]
        if isinstance(i, SNum):
            i = i.__index__()
        return list.__getitem__(self, i)

    def __iter__(self):
        if self._sym is not None:
            raise Unsupported("iteration over a symbolic list")
        return list.__iter__(self)

    def __len__(self):
        if self._sym is not None:
            raise Unsupported("len() outside the len hook")
        return list.__len__(self)

    def append(self, x):
        if self._sym is not None:
            self.__iadd__(SList([x]))
            return
        list.append(self, x)

    def __bool__(self):
        if self._sym is not None:
            return bool(SBool(T(self._sym.n) > 0))
        return list.__len__(self) > 0

    def sort(self, **k):
        if self._sym is not None:
            self._sym = sort_contract((self._sym.n, self._sym.fn), **k)._sym
            return
        list.sort(self, **k)

    def __lt__(self, o):
        if self._sym is None and isinstance(o, SList) and o._sym is None:
            r = text.lex_lt(list.__getitem__(self, slice(None)), list.__getitem__(o, slice(None)))
            if r is not None:
                return r
        return list.__lt__(self, o)

    def _joined(self, o):
        """(length, element) of self + o when one of them is symbolic, else None"""
        if not isinstance(o, list):
            return None
        if self._sym is None and getattr(o, "_sym", None) is None:
            return None

        def part(x):
            if getattr(x, "_sym", None) is not None:
                return T(x._sym.n), x._sym.fn
            v = list.__getitem__(x, slice(None))
            return z3.IntVal(len(v)), late(lambda: arr.from_list(v).get) if v else (lambda i: num(0))
        (n1, f1), (n2, f2) = part(self), part(o)

        def el(i):
            i = T(i)
            d = C().decide(i < n1)
            if d is not None:
                return f1(i) if d else f2(simp(i - n1))
            a, b = f1(i), f2(simp(i - n1))
            if not all(isinstance(x, (SNum, int, float)) for x in (a, b)):
                raise Unsupported("joined lists of other than numbers")
            return arr.ite_el(simp(i < n1), num(a), num(b))
        r = SSeq(zint(simp(n1 + n2)), el)
        r.parts = segments(self) + segments(o)
        return r

    def __iadd__(self, o):
        j = self._joined(o)
        if j is None:
            return list.__iadd__(self, o)
        list.clear(self)
        self._sym = j
        return self

    def extend(self, o):
        self.__iadd__(o if isinstance(o, list) else c_list(o))

    def __add__(self, o):
        j = self._joined(o)
        if j is None:
            r = list.__add__(self, o)
            return SList(r) if isinstance(r, list) else r
        r = SList()
        r._sym = j
        return r

    __hash__ = object.__hash__


def late(mk):
    """an element function that is built when it is first used"""
    f = []

    def g(i):
        if not f:
            f.append(mk())
        return f[0](i)
    return g


def segments(x):
    """a list as consecutive pieces: a concrete list, or (length, element function)"""
    if getattr(x, "_sym", None) is not None:
        return list(getattr(x._sym, "parts", None) or [(x._sym.n, x._sym.fn)])
    v = list.__getitem__(x, slice(None))
    return [v] if v else []


class SRange:
    """range() with symbolic bounds"""


def seq_of(it):
    """(length term, element function) when `it` has symbolic length, else None"""
    if isinstance(it, SList):
        if it._sym is None:
            return None
        return it._sym.n, it._sym.fn
    if isinstance(it, SSeq):
        return it.n, it.fn
    if isinstance(it, SArr):
        if not it._shape:
            raise TypeError("iteration over a 0-d array")
        if isinstance(it._shape[0], int):
            return None
        if len(it._shape) == 1:
            return it._shape[0], (lambda i: shim.to_np(it.get(T(i))))
        return it._shape[0], (lambda i: it[SNum(T(i), FALSE, "i")])
    if isinstance(it, SSel):
        raise Unsupported("iteration over a selection")
    return None


def subst(v, at):
    """v, computed in the generic iteration, at the iteration of `at`"""
    if isinstance(v, SNum):
        return SNum(at(v.t), at(v.nan), v.k, v.np)
    if isinstance(v, SBool):
        return SBool(at(v.t))
    if isinstance(v, z3.ExprRef):
        return at(v)
    if isinstance(v, tuple):
        return tuple(subst(x, at) for x in v)
    if isinstance(v, SList):
        if v._sym is not None:
            raise Unsupported("a loop makes lists of symbolic length")
        r = SList(subst(x, at) for x in list.__iter__(v))
        return r
    if isinstance(v, list) and not isinstance(v, SSeq) and not hasattr(type(v), "_subst"):
        return [subst(x, at) for x in v]
    if isinstance(v, SArr):
        if not at.g.depends(v):
            return v
        g = v.snap()
        return SArr(tuple(d if isinstance(d, int) else zint(simp(at(d))) for d in v._shape), v._k, lambda *i: subst(g(*i), at))
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    if hasattr(type(v), "_subst"):
        return v._subst(at)
    raise Unsupported("loop value of type %s" % type(v).__name__)


class At:
    """terms of the generic iteration of g, moved to iteration i"""

    def __init__(self, g, i):
        self.g, self.i = g, T(i)

    def __call__(self, t):
        g = self.g
        g.collect(t)
        pairs = [(g.k, self.i)] + [(x, z3.Function(nm + "_of", core.IS, x.sort())(self.i)) for nm, x in g.syms.items()]
        t = z3.substitute(t, *pairs)
        if g.funs:
            t = z3.substitute_funs(t, *[(d, z3.Function(nm + "_of", core.IS, *[d.domain(j) for j in range(d.arity())], d.range())(self.i, *[z3.Var(j, d.domain(j)) for j in range(d.arity())]))
                                        for nm, d in g.funs.items()])
        return t


class Generic:
    """one arbitrary iteration, generalised afterwards to all of them"""

    def __init__(self, n, lo=0):
        c = C()
        self.c, self.n, self.lo, self.extra = c, n, lo, []
        self.k = z3.Int(c.fresh("it"))
        c.touch(self.k)
        self.n0 = c.n
        self.path0 = len(c.decisions[: c.pos])
        c.assume(SBool(And(self.k >= lo, self.k < T(n))))
        self.syms, self.funs, self.walked, self.n1 = {}, {}, {}, None
        self.pc0, self.facts0, self.unis0 = len(c.pc), len(c.facts), len(c.unis)
        c.loops_active.append(self)
        self.key = tuple(c.decisions[: c.pos])

    def finish(self, states=()):
        c = self.c
        c.loops_active.remove(self)
        took = tuple(d for d, _ in c.decisions[len(self.key): c.pos])
        seen = c.run.loops_seen.setdefault((self.key, "loop"), set())
        seen.add(took)
        if len(seen) > 1:
            raise Unsupported("a loop body can complete along different branches")
        body_pc, body_facts, body_unis = c.pc[self.pc0:], c.facts[self.facts0:], c.unis[self.unis0:]
        self.n1 = c.n
        for t in body_pc + body_facts:
            for st in states:
                st.free(t)
            self.collect(t)
        for t in self.extra:
            self.collect(t)
        lo = self.lo

        def every(t, i):
            t = self.at(i)(t)
            return t if not lo else z3.Implies(T(i) >= lo, t)
        # each completed iteration satisfied the body's branch conditions and facts
        for t in body_pc + body_facts:
            if self.mentions(t):
                c.uni([self.n], lambda i, t=t: every(t, i))
        for u in body_unis:
            try:
                if any(not isinstance(d, int) and self.mentions(d) for d in u.doms):
                    continue
                c.uni([self.n] + list(u.doms), lambda i, *j, u=u: every(u.fn(*j), i))
            except Unsupported:
                continue

    def collect(self, t):
        """symbols made in the loop body: a value per iteration"""
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in self.walked:
                continue
            self.walked[x.get_id()] = x
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                m = core.sym_no(nm)
                if m is not None and self.n0 < m <= self.n1:
                    if x.num_args():
                        self.funs[nm] = x.decl()
                    else:
                        self.syms[nm] = x
            st.extend(x.children())

    def at(self, i):
        return At(self, i)

    def mentions(self, t):
        from .prove import consts_of
        return any(nm == self.k.decl().name() or (core.sym_no(nm) or 0) > self.n0 for nm in consts_of(t))

    def depends(self, a):
        """does the array (made before or in the generic iteration) differ between iterations"""
        e = a.snap()(*[z3.Int("ph%d?" % j) for j in range(len(a._shape))])
        return any(self.mentions(t) for t in terms(e) + [d for d in a._shape if not isinstance(d, int)])

    def elements(self, v):
        """v (computed in the generic iteration) as a function of the index"""
        for a in arrays_in(v):
            self.depends(a)
        self.n1 = self.c.n
        return lambda i: subst(v, self.at(i))


def arrays_in(v):
    if isinstance(v, SArr):
        return [v]
    if isinstance(v, (tuple, list)) and not hasattr(type(v), "_subst") and not (isinstance(v, SSeq) or isinstance(v, SList) and v._sym is not None):
        return [a for x in (list.__iter__(v) if isinstance(v, list) else v) for a in arrays_in(x)]
    return []


def terms(v):
    if isinstance(v, SNum):
        return [v.t, v.nan]
    if isinstance(v, SBool):
        return [v.t]
    if hasattr(type(v), "_terms"):
        return v._terms()
    if isinstance(v, SSeq) or isinstance(v, SList) and v._sym is not None:
        return []
    if isinstance(v, (tuple, list)):
        return [t for x in (list.__iter__(v) if isinstance(v, list) else v) for t in terms(x)]
    return []


def loop(it, carried=(), stored=()):
    """the iterable of a `for` statement; names whose value passes from one iteration to the next, arrays stored into"""
    if isinstance(it, text.TokSeq):
        return tok_loop(it, carried, stored)
    s = seq_of(it)
    if s is None:
        return concrete_iter(it)
    parts = getattr(it._sym, "parts", None) if isinstance(it, SList) else None
    if parts:
        return loop_parts(parts, carried, stored)
    return generic_loop(*s, carried, stored)


def loop_parts(parts, carried, stored):
    for p in parts:
        if isinstance(p, tuple):
            yield from generic_loop(*p, carried, stored)
        else:
            yield from p


def concrete_iter(it):
    if isinstance(it, SArr):
        return it.__iter__()
    return iter(it)


def lists_of(frame):
    """lists that the body could add to: (list, its length, its symbolic content)"""
    out, seen = [], set()

    def add(v, d):
        if isinstance(v, SList) and id(v) not in seen:
            seen.add(id(v))
            out.append((v, list.__len__(v), v._sym))
            if v._sym is None:
                if d < 2:
                    for x in list.__iter__(v):
                        add(x, d + 1)
        elif isinstance(v, dict) and d < 2 and not isinstance(v, types.ModuleType):
            for x in v.values():
                add(x, d + 1)
        elif isinstance(v, tuple) and d < 2:
            for x in v:
                add(x, d + 1)
    for v in list(frame.f_locals.values()) + [v for v in frame.f_globals.values() if isinstance(v, (SList, dict))]:
        add(v, 0)
        if hasattr(v, "__dict__") and type(v).__module__.startswith("petrofit"):
            for x in vars(v).values():
                add(x, 1)
    return out


def scalars_of(frame):
    return {k: v for k, v in frame.f_locals.items() if isinstance(v, (SNum, SBool, int, float, str, tuple)) or v is None}


def arrays_of(frame):
    return {id(v.root()): (v.root(), v.root()._ver) for v in frame.f_locals.values() if isinstance(v, SArr)}


def the_frame():
    f = sys._getframe(1)
    while "_vc_code" not in f.f_globals:
        f = f.f_back
    return f


def set_local(frame, name, v):
    frame.f_locals[name] = v
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


def body(x, frame):
    """one run of a loop body; `break` and `return` take the iterator off the stack, an exception does not"""
    try:
        yield x
    except GeneratorExit:
        i = frame.f_lasti
        if i >= 0 and frame.f_code.co_code[i] == POP_TOP:
            C().cut = "early exit from a loop over a sequence of symbolic length"
        raise


def generic_loop(n, el, carried=(), stored=()):
    c = C()
    frame = the_frame()
    if not bool(SBool(T(n) > 0)):
        return
    have = frame.f_locals
    carried = [x for x in carried if x in have]
    lo = 0
    if any(not isinstance(have[x], (SNum, SBool, SArr, int, float)) for x in carried):
        # the state has no value yet: the first iteration on its own
        yield el(z3.IntVal(0))
        lo = 1
        if not bool(SBool(T(n) > 1)):
            return
    states = [State(frame, x, False) for x in carried]
    inplace = {id(v) for v in (s.old for s in states)}
    for x in stored:
        v = frame.f_locals.get(x)
        if isinstance(v, SArr) and id(v) not in inplace:
            inplace.add(id(v))
            states.append(State(frame, x, True))
    for s in states:
        s.havoc()
    before = lists_of(frame)
    arrs = arrays_of(frame)
    g = Generic(n, lo)
    yield from body(el(g.k), frame)
    grown, nested = [], []
    for l, n0, sym in before:
        n1 = list.__len__(l)
        if l._sym is not sym:
            if sym is not None or n0 != 0 or lo or getattr(l._sym, "parts", None):
                raise Unsupported("loop extends a list by a symbolic number of items")
            nested.append((l, l._sym.n, l._sym.fn))
            continue
        if n1 == n0:
            continue
        if n0 != 0 or n1 != 1 or lo:
            raise Unsupported("loop appends %d items to a list of %d" % (n1 - n0, n0))
        grown.append(l)
    mine = {id(s.now().root()) for s in states if isinstance(s.now(), SArr)} | {id(s.x.root()) for s in states if isinstance(s.x, SArr)}
    for i, (r, v) in arrs.items():
        if r._ver != v and i not in mine:
            raise Unsupported("loop modifies an array of the enclosing function")
    for s in states:
        s.collect(g)
    g.finish(states)
    for s in states:
        s.fold(g, lo)
    for l in grown:
        v = list.__getitem__(l, 0)
        for t in terms(v):
            for s in states:
                s.free(t)
        fn = g.elements(v)
        list.clear(l)
        l._sym = SSeq(n, fn)
    for l, m, fn2 in nested:
        l._sym = flat(g, n, m, fn2)


class Spent:
    """a name set in a loop over a string's pieces, used after it"""

    def __getattr__(self, nm):
        raise Unsupported("value of the last iteration over the pieces of a string")

    __bool__ = __eq__ = __lt__ = __len__ = __iter__ = __call__ = __add__ = lambda self, *a: self.no


def tok_loop(it, carried, stored):
    """the pieces of a split string: an arbitrary text, then an arbitrary digit run; the body adds one item to one new list"""
    frame = the_frame()
    if any(x in frame.f_locals for x in (*carried, *stored)):
        raise Unsupported("a value carried between the pieces of a string")
    before, arrs, had = lists_of(frame), arrays_of(frame), dict(frame.f_locals)

    def taken():
        out = [l for l, n0, sym in before if l._sym is not sym or list.__len__(l) != n0]
        if len(out) != 1 or out[0]._sym is not None or list.__len__(out[0]) != 1 or any(r._ver != v for r, v in arrs.values()):
            raise Unsupported("loop over the pieces of a string")
        return out[0], list.pop(out[0])
    g = Generic(zint(simp(it.k + 1)))
    yield from body(it.text(g.k), frame)
    l, a = taken()
    yield from body(it.dig(g.k), frame)
    l2, b = taken()
    g.finish()
    names = [k for k, v in frame.f_locals.items() if v is l]
    if l2 is not l or len(names) != 1:
        raise Unsupported("loop over the pieces of a string")
    r = text.TokSeq(it.src, it.i, it.k, g.elements(a), g.elements(b))
    for k, v in list(frame.f_locals.items()):
        if k == names[0]:
            set_local(frame, k, r)
        elif had.get(k) is not v:
            set_local(frame, k, Spent())


def flat(g, n, m, fn2):
    """the list of fn2(0..m-1) of iteration 0, then of iteration 1, ..."""
    c = C()
    if not isinstance(m, int) and g.mentions(T(m)):
        raise Unsupported("iterations add different numbers of items")
    n, m = T(n), T(m)
    nm = c.fresh("flat")
    q, r = z3.Function(nm + "q", core.IS, core.IS), z3.Function(nm + "r", core.IS, core.IS)
    fn2(z3.Int("ph0?"))
    g.n1 = c.n
    total = zint(simp(n * m))
    c.uni([total], lambda p: And(q(T(p)) >= 0, q(T(p)) < n, r(T(p)) >= 0, r(T(p)) < m, q(T(p)) * m + r(T(p)) == T(p)))
    c.uni([zint(n), zint(m)], lambda a, b: And(simp(T(a) * m + T(b)) >= 0, simp(T(a) * m + T(b)) < simp(n * m), q(simp(T(a) * m + T(b))) == T(a), r(simp(T(a) * m + T(b))) == T(b)))

    def el(p):
        p = simp(T(p))
        return subst(fn2(r(p)), g.at(q(p)))
    s = SSeq(total, el)
    s.nest = (n, m)
    return s


def quiet(frame):
    """a comprehension has no effect on lists and arrays"""
    before, arrs = lists_of(frame), arrays_of(frame)

    def check():
        if any(list.__len__(l) != n or l._sym is not s for l, n, s in before) or any(r._ver != v for r, v in arrs.values()):
            raise Unsupported("a comprehension with side effects")
    return check


def occurs(t, decl):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(decl):
            out.append(x)
        st.extend(x.children())
    return out


class State:
    """A value that passes from one iteration of a generic loop to the next.

    The iteration runs with an unknown value x; the new value must be `x, except where c(k) holds, then e(k)`
    (c and e free of x), so after the loop it is e at the last k with c(k), and the initial value without one."""

    def __init__(self, frame, name, inplace):
        self.frame, self.name, self.inplace = frame, name, inplace
        self.old = frame.f_locals[name]
        self.g = None

    def now(self):
        return self.frame.f_locals.get(self.name)

    def havoc(self):
        c, v = C(), self.old
        self.scalar = not isinstance(v, SArr)
        if self.scalar:
            v = v if isinstance(v, SBool) else num(v)
            self.shape, self.k = (), "b" if isinstance(v, SBool) else v.k
            self.get0 = lambda v=v: v
        else:
            if v._base is not None or v._k not in "bif":
                raise Unsupported("loop carries a view between iterations")
            self.shape, self.k = v._shape, v._k
            self.get0 = v.snap()
            self.ver0 = v._ver
        sorts = [core.IS] * len(self.shape)
        nm = c.fresh("state")
        self.fv = z3.Function(nm, *sorts, z3.BoolSort() if self.k == "b" else z3.IntSort() if self.k == "i" else z3.RealSort())
        self.fn = z3.Function(nm + "nan", *sorts, z3.BoolSort())
        self.idx = [z3.Int(c.fresh("place")) for _ in self.shape]
        self.xv, self.xn = z3.Const(c.fresh("x"), self.fv.range()), z3.Const(c.fresh("xnan"), z3.BoolSort())
        if self.scalar:
            self.x = self.element(self.fv(), self.fn())
            set_local(self.frame, self.name, self.x)
        elif self.inplace:
            self.x = v
            v.write(lambda *i: z3.BoolVal(True), lambda *i: self.element(self.fv(*[T(j) for j in i]), self.fn(*[T(j) for j in i])))
            self.ver1 = v._ver
        else:
            self.x = SArr(self.shape, self.k, lambda *i: self.element(self.fv(*[T(j) for j in i]), self.fn(*[T(j) for j in i])))
            self.ver1 = self.x._ver
            set_local(self.frame, self.name, self.x)

    def element(self, t, nan):
        return SBool(t) if self.k == "b" else SNum(t, nan if self.k == "f" else FALSE, self.k)

    def free(self, t):
        if occurs(t, self.fv) or occurs(t, self.fn):
            raise Unsupported("loop uses %s of an earlier iteration" % self.name)

    def collect(self, g):
        """the new value at an arbitrary place"""
        c = C()
        v = self.now()
        self.new = v
        self.same = False
        if self.scalar:
            if isinstance(v, (int, float, bool)):
                v = num(v) if self.k != "b" else SBool(z3.BoolVal(bool(v)))
            if not isinstance(v, (SNum, SBool)) or (isinstance(v, SBool) != (self.k == "b")):
                raise Unsupported("loop changes the type of %s" % self.name)
            if self.k != "b" and v.k != self.k and not (self.k == "f" and v.k == "i"):
                raise Unsupported("loop changes the type of %s" % self.name)
            e = v
        else:
            if not isinstance(v, SArr) or v._k != self.k or len(v._shape) != len(self.shape):
                raise Unsupported("loop changes the type of %s" % self.name)
            for a, b in zip(v._shape, self.shape):
                if not z3.eq(simp(T(a)), simp(T(b))) and C().decide(T(a) == T(b)) is not True:
                    raise Unsupported("loop changes the shape of %s" % self.name)
            old = c.instantiating
            c.instantiating = True
            try:
                e = v.snap()(*self.idx)
            finally:
                c.instantiating = old
        e = e if isinstance(e, SBool) else num(e)
        xv, xn = self.xv, self.xn
        sub = []
        tv = e.t if self.k != "f" else T(e.t) if not z3.is_int(e.t) else z3.ToReal(e.t)
        tn = FALSE if self.k == "b" else e.nan
        for t in (tv, tn):
            for a in occurs(t, self.fv) + occurs(t, self.fn):
                if any(not z3.eq(simp(p), simp(q)) for p, q in zip(a.children(), self.idx)):
                    raise Unsupported("loop mixes places of %s" % self.name)
                sub.append((a, xv if a.decl().eq(self.fv) else xn))
        tv, tn = [z3.simplify(z3.substitute(t, *sub)) if sub else t for t in (tv, tn)]
        self.c, self.e, self.en = split(tv, tn, xv, xn, self.k)
        for t in (self.c, self.e, self.en):
            if occurs(t, xv.decl()) or occurs(t, xn.decl()):
                raise Unsupported("loop accumulates %s" % self.name)
            g.extra.append(t)

    def fold(self, g, lo):
        c = C()
        w = z3.Function(c.fresh("last"), *[core.IS] * len(self.idx), core.IS)
        n = T(g.n)

        def at(t, i, k):
            t = g.at(k)(t)
            return z3.substitute(t, *zip(self.idx, i)) if self.idx else t
        doms = list(self.shape)

        def whole(*i):
            i = [T(j) for j in i]
            q = w(*i)
            return And(q >= lo - 1, q < n, z3.Implies(q >= lo, at(self.c, i, q)))

        def later(*ik):
            i, k = [T(j) for j in ik[:-1]], T(ik[-1])
            return z3.Implies(And(k >= lo, k < n, at(self.c, i, k)), w(*i) >= k)
        if doms:
            c.uni(doms, whole)
        else:
            c.fact(whole())
        c.uni(doms + [g.n], later)

        def final(*i):
            i = [T(j) for j in i]
            q = w(*i)
            if not c.instantiating:
                c.touch(q)
            hit = q >= lo
            return arr.ite_el(hit, self.element(at(self.e, i, q), at(self.en, i, q)), self.get0(*i))
        if self.scalar:
            set_local(self.frame, self.name, final())
        elif self.new is self.x and (self.inplace or self.x._ver != self.ver1):
            self.old.write(lambda *i: z3.BoolVal(True), final)
            if not self.inplace:
                set_local(self.frame, self.name, self.old)
        elif self.inplace:
            raise Unsupported("loop stores into and rebinds %s" % self.name)
        else:
            set_local(self.frame, self.name, SArr(self.shape, self.k, final))


def split(tv, tn, xv, xn, k):
    """(c, e, en): the new value is x unless c, then e (undefined when en)"""
    c = C()
    if k == "b":
        a, b = [z3.simplify(z3.substitute(tv, (xv, z3.BoolVal(z)))) for z in (True, False)]
        if c.decide(Or(a, Not(b))) is not True:
            raise Unsupported("loop negates a carried value")
        return z3.simplify(a == b), a, FALSE

    def go(t):
        if z3.eq(t, xv):
            return FALSE, z3.RealVal(0) if t.sort().kind() == z3.Z3_REAL_SORT else z3.IntVal(0)
        if not occurs(t, xv.decl()):
            return TRUE, t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            q, a, b = t.children()
            if not occurs(q, xv.decl()) and not occurs(q, xn.decl()):
                (ca, ea), (cb, eb) = go(a), go(b)
                return z3.simplify(z3.If(q, ca, cb)), z3.If(q, ea, eb)
        raise Unsupported("loop accumulates a value")
    cc, e = go(tv)
    a, b = [z3.simplify(z3.substitute(tn, (xn, z3.BoolVal(z)))) for z in (True, False)]
    if k == "f":
        if c.decide(And(z3.Implies(cc, a == b), z3.Implies(Not(cc), And(a, Not(b))))) is not True:
            raise Unsupported("loop accumulates undefined values")
    return cc, e, a


def listcomp(f, it):
    if isinstance(it, text.TokSeq):
        check = quiet(the_frame())
        r = it.map(f, Generic)
        check()
        return r
    s = seq_of(it)
    if s is None:
        return SList([f(x) for x in concrete_iter(it)])
    n, el = s
    c = C()
    if not bool(SBool(T(n) > 0)):
        return SList()
    check = quiet(the_frame())
    g = Generic(n)
    v = f(el(g.k))
    check()
    g.finish()
    r = SList()
    r._sym = SSeq(n, g.elements(v))
    return r


def genexp(f, it):
    if seq_of(it) is None and not isinstance(it, text.TokSeq):
        return map(f, concrete_iter(it))
    return listcomp(f, it)


def flatcomp(f, it):
    """[... for a in it for b in f's second clause]: f(a) is the list of the inner clause"""
    s = seq_of(it)
    if s is None:
        out = SList()
        for x in concrete_iter(it):
            v = f(x)
            if v._sym is not None:
                raise Unsupported("lists of symbolic length in a comprehension")
            list.extend(out, list.__iter__(v))
        return out
    n, el = s
    if not bool(SBool(T(n) > 0)):
        return SList()
    check = quiet(the_frame())
    g = Generic(n)
    v = f(el(g.k))
    check()
    g.finish()
    if not isinstance(v, SList) or getattr(v._sym, "parts", None):
        raise Unsupported("comprehension over other than lists")
    r = SList()
    if v._sym is None:
        k = list.__len__(v)
        if k != 1:
            if not k:
                return r
            raise Unsupported("a fixed number of items per iteration")
        r._sym = SSeq(n, g.elements(list.__getitem__(v, 0)))
    else:
        r._sym = flat(g, n, v._sym.n, v._sym.fn)
    return r


def contains(x, y):
    if isinstance(y, (SArr, SSel)):
        return bool(arr.any_(y == x))
    if isinstance(y, str):
        return x in y
    if isinstance(y, SList) and y._sym is not None:
        y = y._sym
    if isinstance(y, SSeq):
        a = y.arr()
        return bool(arr.any_(a == x))
    if isinstance(y, dict) and isinstance(x, (SNum, SBool)):
        y = list(y)
    if isinstance(x, (SNum, SBool)) or (not isinstance(y, (dict, set, frozenset)) and any(isinstance(v, (SNum, SBool)) for v in y)):
        for v in y:
            if v is x:
                return True
            r = v == x
            if isinstance(r, SArr):
                raise ValueError("The truth value of an array with more than one element is ambiguous.")
            if bool(r):
                return True
        return False
    return x in y


def not_contains(x, y):
    return not contains(x, y)


# ---------------------------------------------------------------- builtins

def b_len(x):
    if isinstance(x, SArr):
        if not x._shape:
            raise TypeError("len() of unsized object")
        return arr.dim_val(x._shape[0])
    if isinstance(x, SSel):
        return x.size
    if isinstance(x, SList) and x._sym is not None:
        return arr.dim_val(zint(x._sym.n))
    if isinstance(x, SSeq):
        return arr.dim_val(zint(x.n))
    if isinstance(x, (SNum, SBool)):
        raise TypeError("object of type 'float' has no len()")
    return builtins.len(x)


class _Type:
    pass


def b_type(*a):
    if builtins.len(a) != 1:
        return builtins.type(*a)
    x = a[0]
    if isinstance(x, SNum):
        if x.np:
            return shim.np_int64 if x.k == "i" else shim.np_float64
        return builtins.int if x.k == "i" else builtins.float
    if isinstance(x, SBool):
        return builtins.bool
    if isinstance(x, SList):
        return builtins.list
    if isinstance(x, (SArr, SSel)):
        return shim.ndarray
    if isinstance(x, SSeq):
        return builtins.list
    if getattr(builtins.type(x), "_vc_str", False):
        return builtins.str
    return builtins.type(x)


def b_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(b_isinstance(x, c) for c in cls)
    if getattr(cls, "_vc_builtin", None):
        cls = cls._vc_builtin
    if isinstance(x, SNum):
        if cls is builtins.int:
            return x.k == "i" and not x.np
        if cls is builtins.float:
            return x.k == "f"
        if cls is builtins.bool:
            return False
        if isinstance(cls, shim.NScalar):
            return builtins.isinstance(x, cls)
        if cls is object:
            return True
        return getattr(cls, "__name__", "") in ("Number", "Real") or (getattr(cls, "__name__", "") == "Integral" and x.k == "i")
    if isinstance(x, SBool):
        return cls in (builtins.bool, builtins.int)
    if isinstance(x, (SArr, SSel)):
        return cls is shim.ndarray or cls is object or (isinstance(cls, type) and getattr(cls, "_vc_array_like", False))
    if getattr(builtins.type(x), "_vc_str", False):
        return cls is builtins.str or cls is object
    if not isinstance(cls, type):
        raise TypeError("isinstance() arg 2 must be a type")
    return builtins.isinstance(x, cls)


class FakeType:
    """float(), int(), ... that also serve as types"""


def make_cast(name, base, f):
    class M(type):
        def __instancecheck__(cls, x):
            return b_isinstance(x, base)

        def __call__(cls, *a, **k):
            return f(*a, **k)

        def __eq__(cls, o):
            return o is cls or o is base

        def __hash__(cls):
            return hash(base)

        def __subclasscheck__(cls, s):
            return issubclass(s, base)
    t = M(name, (), {"_vc_builtin": base, "_np_kind": {"float": "f", "int": "i", "bool": "b"}[name]})
    return t


def c_float(x=0.0):
    if isinstance(x, SArr):
        if x.ndim == 0 or all(d == 1 for d in x._shape if isinstance(d, int)) and all(isinstance(d, int) for d in x._shape):
            return core.to_float(x.get(*[0] * x.ndim))
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    if isinstance(x, (SNum, SBool)):
        return core.to_float(x)
    if isinstance(x, SSel):
        raise Unsupported("float() of a selection")
    if hasattr(x, "_as_snum"):
        return core.to_float(x._as_snum())
    return builtins.float(x)


def c_int(x=0, *a):
    if a:
        return builtins.int(x, *a)
    if isinstance(x, SArr) and x.ndim == 0:
        x = x.get()
    if isinstance(x, (SNum, SBool)):
        r = core.to_int(x)
        c = core.concrete(r)
        return c if c is not None else r
    if isinstance(x, (SArr, SSel)):
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    if isinstance(x, text.Tok):
        return x._int()
    return builtins.int(x)


def c_bool(x=False):
    if isinstance(x, (SNum, SBool, SArr, SSel)):
        return SBool(as_bool(x if not isinstance(x, SArr) else x.get()).t) if not (isinstance(x, SArr) and x.ndim) else builtins.bool(x)
    return builtins.bool(x)


def pymin(mn):
    two = arr.minimum2 if mn else arr.maximum2
    real = builtins.min if mn else builtins.max

    def f(*a, **k):
        if k:
            if any(isinstance(x, (SNum, SArr)) for x in a):
                raise Unsupported("min/max options")
            return real(*a, **k)
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SList) and x._sym is not None:
                x = x._sym_array()
            if isinstance(x, SSeq):
                x = x.arr()
            if isinstance(x, (SArr, SSel)):
                if isinstance(x, SSel) or x.ndim != 1:
                    raise Unsupported("min() of a %s" % ("selection" if isinstance(x, SSel) else "matrix"))
                q = z3.Int("probe!")
                C().mute, sv = True, C().mute
                try:
                    e = x.get(q)
                finally:
                    C().mute = sv
                if not core.is_false(simp(num(e).nan)):
                    if bool(arr.any_(shim.np_isnan(x))):
                        raise Unsupported("Python min()/max() of data with NaN")
                r = arr.minmax(x, mn)
                return SNum(r.t, FALSE, r.k, True)
            a = list(x)
            if not a:
                raise ValueError("min() arg is an empty sequence")
        if not any(isinstance(x, (SNum, SBool, SArr)) for x in a):
            return real(*a)
        r = a[0]
        for x in a[1:]:
            if isinstance(x, SArr) and x.ndim == 0:
                x = x.get()
            inf = [y for y in (r, x) if isinstance(y, float) and math.isinf(y)]
            if inf:
                other = x if r is inf[0] else r
                r = other if (inf[0] > 0) == mn else inf[0]
                continue
            p, q = num(r), num(x)
            if not (core.is_false(simp(p.nan)) and core.is_false(simp(q.nan))):
                # Python keeps the first operand unless the second compares smaller/larger
                r = x if bool((q < p) if mn else (q > p)) else r
                continue
            d = C().decide(simp(core.toreal(p.t) <= core.toreal(q.t)))
            if d is not None:
                r = (r if d else x) if mn else (x if d else r)
                continue
            r = two(p, q)
            r = SNum(r.t, r.nan, r.k, p.np or q.np)
        return r
    return f


def b_range(*a):
    if not any(isinstance(x, SNum) for x in a):
        return builtins.range(*a)
    if any(isinstance(x, SNum) and x.k != "i" or isinstance(x, float) for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if all(core.concrete(x) is not None for x in a):
        return builtins.range(*[core.concrete(x) for x in a])
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    lo, hi, st = zint(lo), zint(hi), zint(st)
    if not isinstance(st, int) or st <= 0:
        raise Unsupported("range step")
    n = simp(T(hi) - T(lo)) if st == 1 else simp((T(hi) - T(lo) + (st - 1)) / st)
    n = core.If(simp(n >= 0), n, z3.IntVal(0)) if C().decide_quick(n >= 0) is not True else n
    return SSeq(zint(n), lambda i: SNum(simp(T(lo) + st * T(i)), FALSE, "i"), "i")


def b_enumerate(it, start=0):
    s = seq_of(it)
    if s is None:
        return builtins.enumerate(concrete_iter(it), start)
    n, el = s
    return SSeq(n, lambda i: (SNum(simp(T(i) + start), FALSE, "i"), el(i)))


def b_zip(*its, **k):
    ss = [seq_of(i) for i in its]
    if all(s is None for s in ss):
        return builtins.zip(*[concrete_iter(i) for i in its])
    if any(s is None for s in ss):
        raise Unsupported("zip of symbolic and concrete sequences")
    n = ss[0][0]
    for s in ss[1:]:
        if arr.deq(zint(s[0]), zint(n)) is not True:
            raise Unsupported("zip of different lengths")
    return SSeq(n, lambda i: tuple(s[1](i) for s in ss))


def b_sum(it, start=0):
    if isinstance(it, SArr):
        return arr.sum_(it)
    if seq_of(it) is not None:
        return arr.sum_(it._sym_array() if isinstance(it, SList) else it.arr())
    return builtins.sum(it, start)


def b_abs(x):
    return abs(x)


def b_round(x, nd=None):
    if isinstance(x, (SNum, SArr)):
        return x.__round__(nd) if isinstance(x, SNum) else x.round(nd or 0)
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def sort_contract(s, key=None, reverse=False):
    """a list of symbolic length, sorted: a permutation, ascending by key, equal keys in the given order"""
    n, el = s
    c = C()
    if reverse:
        raise Unsupported("sorted(reverse=)")
    shim.use("sorted", "sorted(s, key) is a stable permutation of s in ascending order of the keys; lists compare lexicographically")
    r = SList()
    if not bool(SBool(T(n) > 0)):
        return r
    g = Generic(n)
    kv = el(g.k) if key is None else key(el(g.k))
    g.finish()
    at = g.elements(kv)
    if isinstance(kv, text.TokSeq):
        less = text.lex_order(n, at)
    elif isinstance(kv, SNum) and core.is_false(simp(kv.nan)):
        less = lambda a, b: toreal_(at(a)) < toreal_(at(b))
    else:
        raise Unsupported("sorted() with keys of type %s" % type(kv).__name__)
    nm = c.fresh("sorted")
    to, back = z3.Function(nm + "to", core.IS, core.IS), z3.Function(nm + "back", core.IS, core.IS)

    def place(p):
        p = T(p)
        c.touch(to(p), "item")
        return And(to(p) >= 0, to(p) < T(n), back(to(p)) == p)
    c.uni([n], place, ["place"])
    c.uni([n], lambda i: And(back(T(i)) >= 0, back(T(i)) < T(n), to(back(T(i))) == T(i)), ["item"])
    c.uni([n, n], lambda p, q: z3.Implies(p < q, And(Not(less(to(q), to(p))), z3.Implies(Not(less(to(p), to(q))), to(p) < to(q)))), ["place", "place"])

    def item(p):
        p = T(p)
        if not c.instantiating:
            c.touch(p, "place")
            c.touch(to(p), "item")
        return el(to(p))
    r._sym = SSeq(n, item)
    return r


def toreal_(x):
    return core.toreal(x.t)


def b_sorted(it, **k):
    s = seq_of(it)
    if s is not None:
        return sort_contract(s, **k)
    it = list(concrete_iter(it))
    r = SList(builtins.sorted(it, **k))
    return r


def b_reversed(it):
    if isinstance(it, SArr):
        return it[::-1] if not isinstance(it._shape[0], int) else builtins.reversed(list(it))
    s = seq_of(it)
    if s is not None:
        n, el = s
        return SSeq(n, lambda i: el(simp(T(n) - 1 - T(i))))
    return builtins.reversed(it)


def c_list(it=()):
    s = seq_of(it) if not isinstance(it, (str, dict)) else None
    if s is not None:
        r = SList()
        r._sym = SSeq(s[0], s[1])
        r._sym.parts = segments(it) if isinstance(it, SList) else None
        return r
    return SList(concrete_iter(it))


class ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, list)

    def __call__(cls, *a):
        return c_list(*a)

    def __eq__(cls, o):
        return o is cls or o is list

    def __hash__(cls):
        return hash(list)


FLIST = ListMeta("list", (), {"_vc_builtin": list})


def truth_list(it):
    if isinstance(it, SList) and it._sym is not None:
        it = it._sym
    if isinstance(it, SSeq):
        e = it.fn(z3.Int("probe!"))
        if isinstance(e, bool):
            return [e] if bool(it) else []
        return it.arr()
    return it


def b_any(it):
    it = truth_list(it)
    if isinstance(it, (SArr, SSel)):
        return arr.any_(it)
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    it = truth_list(it)
    if isinstance(it, (SArr, SSel)):
        return arr.all_(it)
    for x in it:
        if not x:
            return False
    return True


def b_print(*a, **k):
    return None


FFLOAT, FINT, FBOOL = make_cast("float", float, c_float), make_cast("int", int, c_int), make_cast("bool", bool, c_bool)


def b_type_(*a):
    r = b_type(*a)
    return {builtins.float: FFLOAT, builtins.int: FINT, builtins.bool: FBOOL, builtins.list: FLIST}.get(r, r) if builtins.len(a) == 1 else r


# -------------------------------------------------------------- transforms

def carried_names(loop):
    """names assigned in a loop body that may be read there before (so carry a value between iterations); arrays stored into"""
    assigned, exposed, stored = set(), set(), set()

    def names(n, ctx):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}

    def run(stmts, killed):
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Subscript):
                            r = t.value
                            while isinstance(r, (ast.Subscript, ast.Attribute)):
                                r = r.value
                            if isinstance(r, ast.Name):
                                stored.add(r.id)
            assigned.update(names(s, ast.Store))
            if isinstance(s, ast.Assign):
                exposed.update(names(s.value, ast.Load) - killed)
                for t in s.targets:
                    exposed.update(names(t, ast.Load) - killed)
                    killed |= names(t, ast.Store)
            elif isinstance(s, ast.AugAssign):
                exposed.update(names(s.value, ast.Load) - killed)
                if isinstance(s.target, ast.Name):
                    exposed.update({s.target.id} - killed)
                else:
                    exposed.update(names(s.target, ast.Load) - killed)
            elif isinstance(s, ast.If):
                exposed.update(names(s.test, ast.Load) - killed)
                a, b = set(killed), set(killed)
                run(s.body, a)
                run(s.orelse, b)
                # a name assigned on one branch only keeps its old value on the other
                exposed.update((names(ast.Module(s.body, []), ast.Store) ^ names(ast.Module(s.orelse, []), ast.Store)) - killed)
                killed |= a & b
            elif isinstance(s, ast.For):
                exposed.update(names(s.iter, ast.Load) - killed)
                run(s.body, killed | names(s.target, ast.Store))
                run(s.orelse, set(killed))
            elif isinstance(s, ast.With):
                for it in s.items:
                    exposed.update(names(it.context_expr, ast.Load) - killed)
                    if it.optional_vars is not None:
                        killed |= names(it.optional_vars, ast.Store)
                run(s.body, killed)
            else:
                exposed.update(names(s, ast.Load) - killed)
                exposed.update(names(s, ast.Store) - killed)
    run(loop.body, names(loop.target, ast.Store))
    return tuple(sorted(assigned & exposed)), tuple(sorted(stored))


class Tr(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = "__vc_in__" if isinstance(n.ops[0], ast.In) else "__vc_notin__"
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.comparators[0]], []), n)
        return n

    qual = ()

    def visit_ClassDef(self, n):
        self.qual += (n.name,)
        self.generic_visit(n)
        self.qual = self.qual[:-1]
        return n

    def visit_FunctionDef(self, n):
        self.qual += (n.name,)
        self.generic_visit(n)
        call = ast.Expr(ast.Call(ast.Name("__vc_enter__", ast.Load()), [ast.Constant(".".join(self.qual))], []))
        self.qual = self.qual[:-1]
        at = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
        n.body.insert(at, ast.copy_location(call, n.body[0]))
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        carried, stored = carried_names(n)
        n.iter = ast.copy_location(ast.Call(ast.Name("__vc_loop__", ast.Load()), [n.iter, ast.Constant(carried), ast.Constant(stored)], []), n.iter)
        return n

    def comp(self, target, iter, body, hook):
        if isinstance(target, ast.Name):
            args = ast.arguments([], [ast.arg(target.id)], None, [], [], None, [])
        elif isinstance(target, ast.Tuple) and all(isinstance(e, ast.Name) for e in target.elts):
            args = ast.arguments([], [ast.arg("__vc_t")], None, [], [], None, [])
            inner = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in target.elts], None, [], [], None, []), body)
            body = ast.Call(inner, [ast.Starred(ast.Name("__vc_t", ast.Load()), ast.Load())], [])
        else:
            return None
        return ast.Call(ast.Name(hook, ast.Load()), [ast.Lambda(args, body), iter], [])

    def visit_ListComp(self, n):
        self.generic_visit(n)
        gs = n.generators
        if len(gs) > 2 or any(g.ifs or g.is_async for g in gs):
            return ast.copy_location(ast.Call(ast.Name("__vc_list__", ast.Load()), [n], []), n)
        r = self.comp(gs[-1].target, gs[-1].iter, n.elt, "__vc_comp__")
        if r is not None and len(gs) == 2:
            r = self.comp(gs[0].target, gs[0].iter, r, "__vc_flat__")
        return n if r is None else ast.copy_location(r, n)

    def visit_Call(self, n):
        self.generic_visit(n)
        # any(e for v in s): the generator is a list when s has symbolic length
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
            e = n.args[0]
            if len(e.generators) == 1 and not e.generators[0].ifs and not e.generators[0].is_async:
                r = self.comp(e.generators[0].target, e.generators[0].iter, e.elt, "__vc_gen__")
                if r is not None:
                    n.args[0] = ast.copy_location(r, e)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("__vc_list__", ast.Load()), [n], []), n)
        return n


def mklist(x):
    return SList(x) if not isinstance(x, SList) else x


HOOKS = {"__vc_in__": contains, "__vc_notin__": not_contains, "__vc_loop__": loop, "__vc_comp__": listcomp, "__vc_flat__": flatcomp, "__vc_gen__": genexp, "__vc_list__": mklist}

BUILTINS = dict(len=b_len, isinstance=b_isinstance, type=b_type_, float=FFLOAT, int=FINT, bool=FBOOL, list=FLIST, min=pymin(True), max=pymin(False), range=b_range,
                enumerate=b_enumerate, zip=b_zip, sum=b_sum, round=b_round, sorted=b_sorted, reversed=b_reversed, any=b_any, all=b_all, print=b_print)


CODE = {}
POP_TOP = dis.opmap["POP_TOP"]


class Loader:
    def on_enter(self, q):
        pass

    def __init__(self, repo, stubs=None):
        self.repo, self.stubs = repo, stubs or {}
        self.mods = table.install(sky.install(phot.install(fits.install(units.install(astro.install(shim.make_modules()))))))
        self.loaded = {}

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        return os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"

    def module(self, name):
        if name in self.loaded:
            return self.loaded[name]
        path = self.path(name)
        try:
            src = open(path).read()
        except OSError:
            raise Unsupported("no source file for %s" % name)
        m = types.ModuleType(name)
        self.loaded[name] = m
        ispkg = path.endswith("__init__.py")
        g = m.__dict__
        b = dict(vars(builtins))
        b.update(BUILTINS)
        b["__import__"] = self.importer(name, ispkg)
        g["__builtins__"] = b
        g["_vc_code"] = True
        g["__file__"] = path
        g["__package__"] = name if ispkg else name.rpartition(".")[0]
        g.update(HOOKS)
        g["__vc_enter__"] = lambda q: self.on_enter(name + "." + q)
        code = CODE.get((path, src))
        if code is None:
            tree = ast.fix_missing_locations(Tr().visit(ast.parse(src, path)))
            code = CODE[(path, src)] = compile(tree, path, "exec")
        exec(code, g)
        for k, v in self.stubs.items():
            mod, _, attr = k.rpartition(".")
            if mod == name:
                g["__real_" + attr] = g.get(attr)
                g[attr] = v(g.get(attr), m) if callable(v) else v
        return m

    def real(self, mod, attr):
        m = self.module(mod)
        return m.__dict__.get("__real_" + attr) or getattr(m, attr)

    def importer(self, me, ispkg):
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level:
                base = me if ispkg else me.rpartition(".")[0]
                for _ in range(level - 1):
                    base = base.rpartition(".")[0]
                name = base + ("." + name if name else "")
                return self.module(name)
            root = name.split(".")[0]
            if root == "petrofit":
                return self.module(name)
            if name in self.mods:
                return self.mods[name if fromlist else root]
            if root in self.mods:
                return self.mods.setdefault(name, shim.Shim(name)) if fromlist else self.mods[root]
            m = builtins.__import__(name, globals, locals, fromlist, 0)
            if name == "copy":
                return COPY
            if name == "re":
                return text.RE
            return m
        return imp


def sym_copy(x):
    if isinstance(x, (SArr, SSel)):
        return x.copy()
    if isinstance(x, (SNum, SBool)):
        return x
    import copy
    return copy.copy(x)


def sym_deepcopy(x, memo=None):
    if isinstance(x, (SArr, SSel)):
        return x.copy()
    if isinstance(x, (SNum, SBool)):
        return x
    return astro.dcopy(x, {})


COPY = types.ModuleType("copy")
COPY.copy, COPY.deepcopy = sym_copy, sym_deepcopy
