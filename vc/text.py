"""Symbolic strings as alternating texts and ASCII digit runs, and the parts of `re` that split them.

A string with k digit runs is t0 d1 t1 ... dk tk.  A text carries an unbounded rank
in the order of strings (0 = empty) and the rank of its lower-case form; a digit
run carries its value (any nonnegative integer) and its rank as a string.
"""
import re as _re
import types
import z3
from . import core
from .core import SNum, SBool, Unsupported, And, Or, Not, Implies, TRUE, FALSE
from .arr import C

RUN = "[0-9]+"


class Tok:
    _vc_str = True
    digit = False

    def __getattr__(self, a):
        raise Unsupported("str." + a) if not a.startswith("__") else AttributeError(a)

    def _cmp(self, o, f):
        if isinstance(o, str) and o == "":
            return SBool(core.simp(f(self.raw, z3.IntVal(0))))
        if isinstance(o, Tok):
            return SBool(core.simp(f(self.raw, o.raw)))
        if isinstance(o, str):
            raise Unsupported("comparison with a literal string")
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        raise Unsupported("hash of a string")

    def __bool__(self):
        return bool(SBool(core.simp(self.raw != 0)))

    def __str__(self):
        raise Unsupported("str() of a string")


class Text(Tok):
    def __init__(self, raw, low, dig):
        self.raw, self.low, self.dig = raw, low, dig

    def lower(self):
        return Text(self.low, self.low, self.dig)

    def isdigit(self):
        return SBool(self.dig)

    def _int(self):
        raise ValueError("invalid literal for int() with base 10")

    _float = _int

    def _subst(self, at):
        return Text(at(self.raw), at(self.low), at(self.dig))

    def _terms(self):
        return [self.raw, self.low, self.dig]


class Digits(Tok):
    digit = True

    def __init__(self, val, raw):
        self.val, self.raw = val, raw

    def lower(self):
        return self

    casefold = upper = lower

    def isdigit(self):
        return True

    isdecimal = isnumeric = isascii = isdigit

    def _int(self):
        return SNum(self.val, FALSE, "i")

    def _subst(self, at):
        return Digits(at(self.val), at(self.raw))

    def _terms(self):
        return [self.val, self.raw]


class SStr:
    _vc_str = True

    def __init__(self, toks):
        self.toks = toks

    def __getattr__(self, a):
        raise Unsupported("str." + a) if not a.startswith("__") else AttributeError(a)

    def lower(self):
        return SStr([t.lower() for t in self.toks])

    def _no(self, *a):
        raise Unsupported("comparison of whole strings")

    __lt__ = __gt__ = __le__ = __ge__ = __len__ = __iter__ = __getitem__ = __str__ = __add__ = __contains__ = _no

    def __eq__(self, o):
        if o is self:
            return True
        self._no()

    def __hash__(self):
        raise Unsupported("hash of a string")

    def __bool__(self):
        return True if len(self.toks) > 1 else bool(self.toks[0])


class Strings:
    """strings numbered by an index: string i has runs(i) digit runs, texts 0..runs(i) and the rest as functions"""

    def __init__(self, name, n):
        f = lambda nm, *sorts: core.UF(name + "_" + nm, *sorts)
        I, B = core.IS, core.BS
        self.n = n
        self.runs, self.raw, self.low, self.dig = f("runs", I, I), f("raw", I, I, I), f("low", I, I, I), f("dig", I, I, B)
        self.val, self.draw = f("val", I, I, I), f("draw", I, I, I)
        self.longest = z3.Int(name + "_longest")

    def __call__(self, i):
        return SymStr(self, core.T(i))


class SymStr(SStr):
    """string i, of any number of digit runs"""

    def __init__(self, src, i):
        self.src, self.i = src, core.T(i)

    toks = property(lambda self: self._no())
    __bool__ = lower = lambda self: self._no()

    def split(self):
        s, i = self.src, self.i
        return TokSeq(s, i, s.runs(i), lambda j: Text(s.raw(i, j), s.low(i, j), s.dig(i, j)), lambda j: Digits(s.val(i, j), s.draw(i, j)))

    def _subst(self, at):
        return SymStr(self.src, at(self.i))

    def _terms(self):
        return [self.i]


class TokSeq(list):
    """list of 2k+1 items: text(0), digits(0), text(1), ..., text(k)"""
    _tokseq = True

    def __init__(self, src, i, k, text, dig):
        self.src, self.i, self.k, self.text, self.dig = src, i, k, text, dig

    def _no(self, *a):
        raise Unsupported("use of a list of symbolic length")

    __iter__ = __len__ = __getitem__ = __bool__ = __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __add__ = __contains__ = append = extend = insert = pop = sort = _no
    __hash__ = object.__hash__

    def map(self, f, generic):
        """[f(x) for x in self]; f(an arbitrary text), f(an arbitrary digit run)"""
        c = C()
        g = generic(core.zint(core.simp(self.k + 1)))
        a, b = f(self.text(g.k)), f(self.dig(g.k))       # digit run k does not exist and is not looked at
        g.finish()
        return TokSeq(self.src, self.i, self.k, g.elements(a), g.elements(b))

    def _subst(self, at):
        from .loader import subst
        return TokSeq(self.src, at(self.i), at(self.k), lambda j: subst(self.text(j), at), lambda j: subst(self.dig(j), at))

    def _terms(self):
        return [self.i, self.k]


def lex_order(n, key):
    """less(a, b): list comparison key(a) < key(b), for lists of texts and digit runs, by their first different pair"""
    c = C()
    J = z3.Function(c.fresh("differ"), core.IS, core.IS, core.IS)

    def cmp(x, y):
        """(x < y, x == y)"""
        l, e = x < y, x == y
        if not isinstance(l, SBool) or not isinstance(e, SBool):
            raise Unsupported("comparison of list items")
        return l.t, e.t

    def at(a, b, j):
        x, y = key(a), key(b)
        return cmp(x.text(j), y.text(j)), cmp(x.dig(j), y.dig(j)), x.k, y.k

    def found(a, b):
        (tl, te), (dl, de), k, m = at(a, b, J(a, b))
        c.touch(J(a, b), "pair")
        j = J(a, b)
        return And(j >= 0, j <= k, j <= m, Implies(And(j < k, j < m), Not(And(te, de))))

    def before(a, b, j):
        (tl, te), (dl, de), k, m = at(a, b, j)
        return Implies(j < J(a, b), And(te, de))
    src = key(z3.IntVal(0)).src
    c.uni([n, n], found, ["item", "item"])
    c.uni([n, n, src.longest], before, ["item", "item", "pair"])

    def less(a, b):
        (tl, te), (dl, de), k, m = at(a, b, J(a, b))
        j = J(a, b)
        return Or(tl, And(te, z3.If(And(j < k, j < m), dl, k < m)))
    return less


def symbolic(*a):
    return any(getattr(x, "_vc_str", False) for x in a)


class Pattern:
    def __init__(self, p):
        self.pattern = p

    def __getattr__(self, nm):
        if nm in ("split", "fullmatch", "match", "search", "findall", "finditer", "sub"):
            return lambda *a, **k: getattr(RE, nm)(self.pattern, *a, **k)
        raise Unsupported("re pattern." + nm)


class Match:
    def __init__(self, s):
        self.s = s

    def group(self, *a):
        return self.s

    def __getattr__(self, nm):
        raise Unsupported("re match." + nm)


def pat(p):
    return p.pattern if isinstance(p, Pattern) else p


def whole(p):
    """patterns that a token fully matches exactly when it is a digit run"""
    return p in (RUN, "(%s)" % RUN, "[0-9][0-9]*")


def split(p, s, *a, **k):
    p = pat(p)
    if not symbolic(s):
        return _re.split(p, s, *a, **k)
    if p != "(%s)" % RUN or a or k or not isinstance(s, SStr):
        raise Unsupported("re.split(%r)" % (p,))
    if isinstance(s, SymStr):
        return s.split()
    return list(s.toks)


def fullmatch(p, s, *a):
    p = pat(p)
    if not symbolic(s):
        return _re.fullmatch(p, s, *a)
    if a or not whole(p) or not isinstance(s, Tok):
        raise Unsupported("re.fullmatch(%r)" % (p,))
    return Match(s) if s.digit else None


def match(p, s, *a):
    p = pat(p)
    if not symbolic(s):
        return _re.match(p, s, *a)
    if a or not isinstance(s, Tok) or not (whole(p) or whole(p[:-1]) or p == "[0-9]"):
        raise Unsupported("re.match(%r)" % (p,))
    return Match(s) if s.digit else None          # the split left no text that starts with a digit


def no(nm):
    def f(p, s=None, *a, **k):
        if symbolic(s, *a):
            raise Unsupported("re." + nm)
        return getattr(_re, nm)(pat(p), s, *a, **k)
    return f


RE = types.ModuleType("re")
RE.split, RE.fullmatch, RE.match = split, fullmatch, match
for _n in ("search", "findall", "finditer", "sub"):
    setattr(RE, _n, no(_n))


def _compile(p, *a):
    if a:
        raise Unsupported("re flags")
    return p if isinstance(p, Pattern) else Pattern(p)


RE.compile = _compile


def _flag(nm):
    raise Unsupported("re." + nm)


RE.__getattr__ = _flag


def lex_lt(a, b):
    """list comparison a < b of token lists, as one truth value; None where Python's own comparison must run"""
    for x in list(a) + list(b):
        if not isinstance(x, (Tok, SNum)):
            return None
    if not any(isinstance(x, Tok) for x in list(a) + list(b)):
        return None
    c = C()
    eq, lt = TRUE, []
    for x, y in zip(a, b):
        if isinstance(x, Tok) != isinstance(y, Tok):
            if bool(SBool(eq)):
                raise TypeError("'<' not supported between instances of 'str' and 'int'")
            return SBool(core.simp(Or(*lt)) if lt else FALSE)
        l, e = x < y, x == y
        lt.append(And(eq, l.t))
        eq = core.simp(And(eq, e.t))
    if len(a) < len(b):
        lt.append(eq)
    return SBool(core.simp(Or(*lt)) if lt else FALSE)
