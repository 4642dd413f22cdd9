"""Normal-form prover for equalities of real expressions.

Terms are normalised to quotients of generalised polynomials: sums of monomials
whose factors are atoms raised to (possibly symbolic) exponents.  exp, pow, sqrt
and logarithms obey their laws on positive bases; positivity is asked from the
caller (`pos`), so every rewrite that needs it is justified by the path's facts.
"""
from fractions import Fraction
import itertools
import z3


INVERSE = {"gammainc": "gammaincinv", "gammaincinv": "gammainc"}


class TooBig(Exception):
    pass


class NF:
    MAXMONO = 4000

    def __init__(self, pos=None, nonneg=None):
        self.pos = pos or (lambda term: False)
        self.nonneg = nonneg or self.pos
        self.atoms = []           # (kind, payload, positive?)
        self.index = {}
        self.expos = []           # registered symbolic exponents (Rat)
        self.memo = {}
        self.keep = []
        self.nn = set()           # sums known not to be negative

    # ---- exponents: Fraction or ('s', id) -------------------------------
    def ex_rat(self, e):
        return self.const(e) if isinstance(e, Fraction) else self.expos[e[1]]

    def ex_reg(self, r):
        c = self.as_const(r)
        if c is not None:
            return c
        for i, q in enumerate(self.expos):
            if self.equal(q, r):
                return ("s", i)
        self.expos.append(r)
        return ("s", len(self.expos) - 1)

    def ex_add(self, a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a + b
        return self.ex_reg(self.add(self.ex_rat(a), self.ex_rat(b)))

    def ex_mul(self, a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return a * b
        return self.ex_reg(self.mul(self.ex_rat(a), self.ex_rat(b)))

    # ---- polynomials: dict mono -> Fraction, mono: frozenset of (atom, expo)
    def const(self, c):
        c = Fraction(c)
        return ({frozenset(): c} if c else {}, {frozenset(): Fraction(1)})

    def as_const(self, r):
        n, d = r
        if not n:
            return Fraction(0)
        if len(n) == 1 and len(d) == 1:
            (mn, cn), (md, cd) = next(iter(n.items())), next(iter(d.items()))
            if mn == md:
                return cn / cd
        # proportional?
        if set(n) == set(d):
            ks = list(n)
            q = n[ks[0]] / d[ks[0]]
            if all(n[k] == q * d[k] for k in ks):
                return q
        return None

    def padd(self, p, q):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pscale(self, p, c):
        return {m: v * c for m, v in p.items()} if c else {}

    def mmul(self, a, b):
        """product of monomials -> poly"""
        d = dict(a)
        for at, e in b:
            if at in d:
                s = self.ex_add(d[at], e)
                if s == 0:
                    del d[at]
                else:
                    d[at] = s
            else:
                d[at] = e
        return self.mclean(d)

    def mclean(self, d):
        out = {frozenset(): Fraction(1)}
        rest = {}
        for at, e in d.items():
            kind, payload = self.atoms[at][:2]
            if isinstance(e, Fraction) and e.denominator == 1:
                if kind == "prime":
                    out = self.pscale(out, Fraction(payload) ** int(e))
                    continue
                if kind == "poly" and 0 < e <= 8:
                    for _ in range(int(e)):
                        out = self.pmul(out, payload)
                    continue
                if kind == "absr" and abs(e) >= 2:
                    k, odd = divmod(abs(int(e)), 2)
                    f = payload if e > 0 else self.pinv(payload)
                    for _ in range(2 * k):
                        out = self.pmul(out, f)
                    if odd:
                        rest[at] = Fraction(1 if e > 0 else -1)
                    continue
                if kind == "sqrtp" and abs(e) >= 2:
                    k, odd = divmod(abs(int(e)), 2)
                    f = payload if e > 0 else self.pinv(payload)
                    for _ in range(k):
                        out = self.pmul(out, f)
                    if odd:
                        rest[at] = Fraction(1 if e > 0 else -1)
                    continue
                if kind == "sin" and e >= 2:
                    k, odd = divmod(int(e), 2)
                    cosat = self.atom("cos", payload, False)
                    one_c2 = {frozenset(): Fraction(1), frozenset([(cosat, Fraction(2))]): Fraction(-1)}
                    for _ in range(k):
                        out = self.pmul(out, one_c2)
                    if odd:
                        rest[at] = Fraction(1)
                    continue
            rest[at] = e
        if rest:
            m = frozenset(rest.items())
            if len(out) == 1 and frozenset() in out:
                return {m: out[frozenset()]}
            return self.pmul(out, {m: Fraction(1)})
        return out

    def pmul(self, p, q):
        r = {}
        if len(p) * len(q) > self.MAXMONO * 4:
            raise TooBig()
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                for m, c in self.mmul(m1, m2).items():
                    v = r.get(m, 0) + c * c1 * c2
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        if len(r) > self.MAXMONO:
            raise TooBig()
        return r

    def pinv(self, p):
        """1 / p as a polynomial over base atoms"""
        if not p:
            raise TooBig()
        common, q = self.split(p) if len(p) > 1 else (dict(next(iter(p))), {frozenset(): next(iter(p.values()))})
        inv = {at: self.ex_neg(e) for at, e in common.items()}
        if len(q) == 1 and frozenset() in q:
            return self.pscale(self.mclean(inv), 1 / q[frozenset()])
        lead = sorted(q.items(), key=lambda mc: self.mkey(mc[0]))[0][1]
        q = self.pscale(q, 1 / lead)
        root, k = self.root_of(q)
        if root is not None and k % 2 == 0:
            at, k = self.sum_factor(q)
            k = int(k)
        else:
            at = self.polybase(root if root is not None else q)
        return self.pscale(self.pmul(self.mclean(inv), self.mclean({at: Fraction(-k)})), 1 / lead)

    def topoly(self, r):
        return r[0] if r[1] == {frozenset(): Fraction(1)} else self.pmul(r[0], self.pinv(r[1]))

    def cancel(self, r):
        """n/d with the denominator divided out when the numerator is one monomial times it"""
        n, d = r
        if len(d) < 2 or len(n) < len(d) or len(n) % len(d):
            return r
        left, out = n, {}
        for _ in range(len(n) // len(d) + 1):
            if not left:
                return (out, {frozenset(): Fraction(1)})
            m0, c0 = next(iter(left.items()))
            for md, cd in d.items():
                q = self.pscale(self.mmul(m0, frozenset((a, self.ex_neg(e)) for a, e in md)), c0 / cd)
                rest = self.padd(left, self.pscale(self.pmul(q, d), Fraction(-1)))
                if len(rest) <= len(left) - len(d):
                    left, out = rest, self.padd(out, q)
                    break
            else:
                return r
        return r

    def palike(self, kind, p, signs):
        """atom of this kind for p up to provable equality (and sign, if allowed)"""
        lst = self.index.setdefault(("pa", kind), [])
        for i, old in lst:
            if any(self.zero(self.padd(old, self.pscale(p, -s))) for s in signs):
                return i
        self.atoms.append((kind, p, None))
        i = len(self.atoms) - 1
        lst.append((i, p))
        return i

    # ---- rational functions ---------------------------------------------
    def red(self, r):
        """push a single-monomial denominator into the numerator"""
        n, d = r
        if len(d) == 1:
            (m, c), = d.items()
            if m == frozenset() and c == 1:
                return r
            inv = {frozenset((a, self.ex_neg(e)) for a, e in m): 1 / c}
            return (self.pmul(n, inv), {frozenset(): Fraction(1)})
        return r

    def ex_neg(self, e):
        return self.ex_mul(e, Fraction(-1))

    def add(self, a, b):
        if a[1] == b[1]:
            return self.red((self.padd(a[0], b[0]), a[1]))
        return self.red((self.padd(self.pmul(a[0], b[1]), self.pmul(b[0], a[1])), self.pmul(a[1], b[1])))

    def mul(self, a, b):
        return self.red((self.pmul(a[0], b[0]), self.pmul(a[1], b[1])))

    def neg(self, a):
        return (self.pscale(a[0], Fraction(-1)), a[1])

    def inv(self, a):
        if not a[0]:
            raise TooBig()          # division by a literal zero
        return self.red((a[1], a[0]))

    def zero(self, p):
        """is the polynomial identically zero (clearing poly-base powers)?"""
        for _ in range(12):
            if not p:
                return True
            bases = {}
            for m in p:
                for at, e in m:
                    if self.atoms[at][0] == "poly":
                        bases.setdefault(at, []).append(e)
            done = True
            for at in bases:
                exps = {}
                for m in p:
                    e = dict(m).get(at, Fraction(0))
                    exps[m] = e
                # group by class modulo integers
                ref = next(iter(exps.values()))
                diffs = {}
                ok = True
                for m, e in exps.items():
                    d = self.as_const(self.add(self.ex_rat(e), self.neg(self.ex_rat(ref))))
                    if d is None or d.denominator != 1:
                        ok = False
                        break
                    diffs[m] = int(d)
                if not ok:
                    continue
                lo = min(diffs.values())
                if all(v == lo for v in diffs.values()):
                    # constant power: divide it out
                    if any(e != 0 for e in exps.values()):
                        p = {frozenset(x for x in m if x[0] != at): c for m, c in p.items()}
                        done = False
                        break
                    continue
                q = {}
                base = self.atoms[at][1]
                for m, c in p.items():
                    rest = {frozenset(x for x in m if x[0] != at): c}
                    for _ in range(diffs[m] - lo):
                        rest = self.pmul(rest, base)
                    q = self.padd(q, rest)
                p = q
                done = False
                break
            if done:
                break
        return not p

    def equal(self, a, b):
        if a == b:
            return True
        if a[1] == b[1]:
            return self.zero(self.padd(a[0], self.pscale(b[0], Fraction(-1))))
        return self.zero(self.padd(self.pmul(a[0], b[1]), self.pscale(self.pmul(b[0], a[1]), Fraction(-1))))

    # ---- atoms ------------------------------------------------------------
    def atom(self, kind, payload, positive):
        key = (kind, payload if isinstance(payload, (str, int, tuple)) else None)
        if key[1] is not None and key in self.index:
            return self.index[key]
        self.atoms.append((kind, payload, positive))
        i = len(self.atoms) - 1
        if key[1] is not None:
            self.index[key] = i
        return i

    def app(self, f, args, term):
        """atom for f(args) up to provable equality of arguments"""
        lst = self.index.setdefault(("app", f, len(args)), [])
        for i, old in lst:
            if all(self.equal(x, y) if isinstance(x, tuple) else x == y for x, y in zip(old, args)):
                return i
        self.atoms.append(("app", (f, args), term))
        i = len(self.atoms) - 1
        lst.append((i, args))
        return i

    def rat_atom(self, i, e=Fraction(1)):
        return self.red((self.mclean({i: e}), {frozenset(): Fraction(1)}))

    def polybase(self, p):
        for i, a in enumerate(self.atoms):
            if a[0] == "poly" and self.zero(self.padd(a[1], self.pscale(p, Fraction(-1)))):
                return i
        self.atoms.append(("poly", p, None))
        return len(self.atoms) - 1

    def root_of(self, p):
        """(f, k) with f**k == p for the largest k, by square-free factorisation; (None, 1) if p is no power"""
        if not 3 <= len(p) <= 15 or any(not (isinstance(e, Fraction) and e.denominator == 1 and e > 0) for m in p for _, e in m):
            return None, 1
        key = ("root", frozenset(p.items()))
        if key not in self.index:
            import sympy
            ats = sorted({a for m in p for a, _ in m})
            xs = sympy.symbols("x:%d" % len(ats))
            pos = {a: i for i, a in enumerate(ats)}
            d = {}
            for m, c in p.items():
                ex = [0] * len(ats)
                for a, e in m:
                    ex[pos[a]] = int(e)
                d[tuple(ex)] = sympy.Rational(c.numerator, c.denominator)
            r = (None, 1)
            c, fs = sympy.Poly(d, *xs).sqf_list()
            if c == 1 and len(fs) == 1 and fs[0][1] > 1:
                f = {frozenset((ats[i], Fraction(int(e))) for i, e in enumerate(ex) if e): Fraction(int(v.p), int(v.q)) for ex, v in fs[0][0].terms()}
                r = (f, fs[0][1])
            self.index[key] = r
        return self.index[key]

    def split(self, p):
        """p = c * mono * q with q's content removed; returns (c, mono, q)"""
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for at in list(common):
                e1, e2 = common[at], d.get(at)
                if e2 is None:
                    e2 = Fraction(0)
                if e1 == e2:
                    continue
                if isinstance(e1, Fraction) and isinstance(e2, Fraction):
                    lo = min(e1, e2)
                    if lo == 0:
                        del common[at]
                    else:
                        common[at] = lo
                else:
                    del common[at]
            for at in d:
                if at not in dict(ms[0]) and isinstance(d[at], Fraction) and d[at] < 0:
                    common[at] = min(common.get(at, Fraction(0)), d[at])
        # atoms absent from some monomial must not be taken as positive powers
        for at in list(common):
            for m in ms:
                e = dict(m).get(at, Fraction(0))
                if isinstance(e, Fraction) and isinstance(common[at], Fraction) and e < common[at]:
                    common[at] = e
            if common[at] == 0:
                del common[at]
        inv = {at: self.ex_neg(e) for at, e in common.items()}
        q = {}
        for m, c in p.items():
            q = self.padd(q, self.pscale(self.mmul(m, frozenset(inv.items())), c))
        return common, q

    def factor_int(self, n):
        out, d = {}, 2
        while n > 1:
            while n % d == 0:
                out[d] = out.get(d, 0) + 1
                n //= d
            d += 1
            if d > 10 ** 5:
                out[n] = out.get(n, 0) + 1
                break
        return out

    def num_factors(self, c):
        """positive rational as prime powers"""
        f = {}
        for p, k in self.factor_int(c.numerator).items():
            f[p] = f.get(p, 0) + k
        for p, k in self.factor_int(c.denominator).items():
            f[p] = f.get(p, 0) - k
        return f

    def atom_pos(self, at):
        a = self.atoms[at]
        if a[0] in ("prime", "E"):
            return True
        if a[0] == "poly":
            return self.poly_pos(at)
        return a[2] is not None and a[2] is not False and self.pos(a[2])

    def poly_term(self, p):
        """a z3 term for a polynomial over plain atoms (else None)"""
        tot = []
        for m, c in p.items():
            fs = [z3.Q(c.numerator, c.denominator)]
            for at, e in m:
                t = self.atoms[at][2]
                if not isinstance(t, z3.ExprRef) or not (isinstance(e, Fraction) and e.denominator == 1 and 0 < e <= 4):
                    return None
                t = z3.ToReal(t) if t.sort() == z3.IntSort() else t
                fs += [t] * int(e)
            x = fs[0]
            for f in fs[1:]:
                x = x * f
            tot.append(x)
        return z3.Sum(tot) if len(tot) > 1 else tot[0]

    def poly_pos(self, at):
        """is a polynomial atom positive on this path"""
        k = ("polypos", at)
        if k not in self.index:
            t = self.poly_term(self.atoms[at][1])
            self.index[k] = t is not None and bool(self.pos(z3.simplify(t)))
        return self.index[k]

    def atom_nonneg(self, at):
        if self.atom_pos(at) or self.atoms[at][0] in ("absr", "sqrtp") or at in self.nn:
            return True
        t = self.atoms[at][2]
        return isinstance(t, z3.ExprRef) and bool(self.nonneg(t))

    def rat_pos(self, r):
        """a quotient of sums of positive terms"""
        return bool(r[0]) and all(c > 0 and all(self.atom_pos(a) for a, _ in m) for p in r for m, c in p.items())

    def nonneg_factors(self, p):
        """p, known not to be negative, as factors that may be raised to a positive power separately; None if unclear"""
        common, q = self.split(p) if len(p) > 1 else (dict(next(iter(p))), {frozenset(): next(iter(p.values()))})
        single = len(q) == 1 and frozenset() in q
        res = []
        for at, e in common.items():
            if not self.atom_pos(at):
                if not single or not self.atom_nonneg(at) or not self.rat_pos(self.ex_rat(e)):
                    return None
            res.append((at, e))
        c = q[frozenset()] if single else abs(sorted(q.items(), key=lambda mc: self.mkey(mc[0]))[0][1])
        if c <= 0:
            return None
        for pr, k in self.num_factors(c).items():
            res.append((self.atom("prime", pr, True), Fraction(k)))
        if not single:
            f = self.sum_factor(self.pscale(q, 1 / c))
            self.nn.add(f[0])           # common > 0 and p >= 0, so the rest is not negative
            res.append(f)
        return res

    def sum_factor(self, q):
        """q as (atom, power): the root of a perfect power, when it is known to be positive"""
        root, k = self.root_of(q)
        if root is not None:
            for sgn in (1, -1):
                at = self.polybase(self.pscale(root, Fraction(sgn)))
                if self.poly_pos(at):
                    return at, Fraction(k)
        return self.polybase(q), Fraction(1)

    def abs_of(self, r):
        """|r| with the positive factors taken out"""
        p = self.topoly(r)
        if not p:
            return self.const(0)
        common, q = self.split(p) if len(p) > 1 else (dict(next(iter(p))), {frozenset(): next(iter(p.values()))})
        out, rest = self.const(1), {}
        for at, e in common.items():
            if self.atom_pos(at):
                out = self.mul(out, self.rat_atom(at, e))
            else:
                rest[at] = e
        q = self.pmul(q, {frozenset(rest.items()): Fraction(1)})
        lead = abs(sorted(q.items(), key=lambda mc: self.mkey(mc[0]))[0][1])
        out = self.mul(out, self.const(lead))
        q = self.pscale(q, 1 / lead)
        if q in ({frozenset(): Fraction(1)}, {frozenset(): Fraction(-1)}):
            return out
        return self.mul(out, self.rat_atom(self.palike("absr", q, (1, -1))))

    def poly_factors(self, p, term_pos):
        """p (known positive if term_pos) as list of (atom, expo) + primes; None if a sign is unknown"""
        common, q = self.split(p) if len(p) > 1 else (dict(next(iter(p))), {frozenset(): next(iter(p.values()))})
        res = []
        for at, e in common.items():
            even = isinstance(e, Fraction) and e.denominator == 1 and e % 2 == 0
            if not self.atom_pos(at):
                return None
            res.append((at, e))
        if len(q) == 1 and frozenset() in q:
            c = q[frozenset()]
            if c <= 0:
                return None
            for pr, k in self.num_factors(c).items():
                res.append((self.atom("prime", pr, True), Fraction(k)))
            return res
        if not term_pos:
            return None
        # normalise the scale of the remaining sum
        lead = sorted(q.items(), key=lambda mc: self.mkey(mc[0]))[0][1]
        c = abs(lead)
        q = self.pscale(q, 1 / c)
        for pr, k in self.num_factors(c).items():
            res.append((self.atom("prime", pr, True), Fraction(k)))
        res.append(self.sum_factor(q))
        return res

    def mkey(self, m):
        return sorted((a, str(e)) for a, e in m)

    def power(self, base, expo, base_term, expo_term=None):
        """base ** expo for Rats"""
        expo = self.cancel(expo)
        c = self.as_const(expo)
        if c is not None and c.denominator == 1 and abs(c) <= 12:
            r = self.const(1)
            for _ in range(abs(int(c))):
                r = self.mul(r, base)
            return r if c >= 0 else self.inv(r)
        if self.as_const(base) == 10 and expo[1] == {frozenset(): Fraction(1)}:
            out, rest = self.peel(expo[0], "log10of", "log10prime")
            if out is not None:
                r = self.power(base, (rest, expo[1]), base_term, None if self.pos(base_term) else expo_term)
                return None if r is None else self.mul(out, r)
        tp = self.pos(base_term)
        if tp:
            e = self.ex_reg(expo)
            out = self.const(1)
            okk = True
            for p, sgn in ((base[0], 1), (base[1], -1)):
                fs = self.poly_factors(p, True) if p else None
                if fs is None:
                    okk = False
                    break
                for at, k in fs:
                    ee = self.ex_mul(k, e if sgn > 0 else self.ex_neg(e))
                    if ee != 0:
                        out = self.mul(out, self.rat_atom(at, ee))
            if okk:
                return out
            return None
        if self.nonneg(base_term) and (expo_term is None or self.pos(expo_term)) and base[0]:
            e, out = self.ex_reg(expo), self.const(1)
            fs = self.nonneg_factors(self.topoly(base))
            if fs is None:
                return None
            for at, k in fs:
                ee = self.ex_mul(k, e)
                if ee != 0:
                    out = self.mul(out, self.rat_atom(at, ee))
            return out
        return None

    def peel(self, p, of, prime):
        """split exponent sums: base**(k*log(x) + rest) == x**k * base**rest"""
        out, rest = None, {}
        for m, c in p.items():
            hit = None
            for at, e in m:
                if self.atoms[at][0] in (of, prime) and e == 1:
                    hit = at
                    break
            if hit is None:
                rest = self.padd(rest, {m: c})
                continue
            k = ({frozenset(x for x in m if x[0] != hit): c}, {frozenset(): Fraction(1)})
            a = self.atoms[hit]
            base = self.atom("prime", a[1], True) if a[0] == prime else a[1]
            f = self.rat_atom(base, self.ex_reg(k))
            out = f if out is None else self.mul(out, f)
        return out, rest

    def log(self, name, base, base_term):
        if not self.pos(base_term):
            return None
        out = self.const(0)
        for p, sgn in ((base[0], 1), (base[1], -1)):
            fs = self.poly_factors(p, True) if p else None
            if fs is None:
                return None
            for at, k in fs:
                kind, payload = self.atoms[at][:2]
                if kind == "E" and name == "ln":
                    l = self.const(1)
                elif kind == "prime" and name == "log10" and payload == 5:
                    two = self.rat_atom(self.atom("log10prime", 2, False))
                    l = self.add(self.const(1), self.neg(two))
                elif kind == "prime":
                    l = self.rat_atom(self.atom(name + "prime", payload, False))
                else:
                    l = self.rat_atom(self.atom(name + "of", at, False))
                out = self.add(out, self.mul(l, self.mul(self.ex_rat(k), self.const(sgn))))
        return out

    # ---- z3 -> Rat ----------------------------------------------------------
    def of(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self._of(t)
        self.memo[k] = r
        self.keep.append(t)
        return r

    def _of(self, t):
        if z3.is_int_value(t):
            return self.const(t.as_long())
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return self.const(Fraction(f.numerator, f.denominator))
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.const(0)
            for c in ch:
                r = self.add(r, self.of(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.neg(self.of(c)))
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.neg(self.of(ch[0]))
        if k == z3.Z3_OP_MUL:
            r = self.const(1)
            for c in ch:
                r = self.mul(r, self.of(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.of(ch[0]), self.inv(self.of(ch[1])))
        if k == z3.Z3_OP_TO_REAL:
            return self.of(ch[0])
        if k == z3.Z3_OP_UNINTERPRETED and ch:
            name = t.decl().name()
            if name == "exp":
                at = self.atom("E", 0, True)
                q = self.of(ch[0])
                out = None
                if q[1] == {frozenset(): Fraction(1)}:
                    out, rest = self.peel(q[0], "lnof", "lnprime")
                    q = (rest, q[1])
                e = self.ex_reg(q)
                r = self.const(1) if e == 0 else self.rat_atom(at, e)
                return r if out is None else self.mul(out, r)
            if name == "pow":
                r = self.power(self.of(ch[0]), self.of(ch[1]), ch[0], ch[1])
                if r is not None:
                    return r
            if name == "sqrt":
                r = self.power(self.of(ch[0]), self.const(Fraction(1, 2)), ch[0])
                if r is not None:
                    return r
                if self.nonneg(ch[0]):
                    return self.rat_atom(self.palike("sqrtp", self.topoly(self.of(ch[0])), (1,)))
            if name == "absr":
                if self.nonneg(ch[0]):
                    return self.of(ch[0])
                return self.abs_of(self.of(ch[0]))
            if name in ("ln", "log10"):
                r = self.log(name, self.of(ch[0]), ch[0])
                if r is not None:
                    return r
            if name in ("sin", "cos"):
                a = self.of(ch[0])
                i = None
                lst = self.index.setdefault(("trig",), [])
                for j, old in enumerate(lst):
                    if self.equal(old, a):
                        i = j
                if i is None:
                    lst.append(a)
                    i = len(lst) - 1
                return self.rat_atom(self.atom(name, i, False))
            args = tuple(self.of(c) if isinstance(c, z3.ArithRef) else c.sexpr() for c in ch)
            if name in INVERSE:
                r = self.inverse_pair(name, args, ch)
                if r is not None:
                    return r
            return self.rat_atom(self.app(name, args, t))
        if k == z3.Z3_OP_ITE:
            args = (ch[0].sexpr(), self.of(ch[1]), self.of(ch[2]))
            return self.rat_atom(self.app("ite", args, t))
        if ch:
            args = tuple(self.of(c) if isinstance(c, z3.ArithRef) else c.sexpr() for c in ch)
            return self.rat_atom(self.app("op%d" % k, args, t))
        i = self.index.get(("c", t.decl().name()))
        if i is None:
            self.atoms.append(("const", t.decl().name(), t))
            i = self.index[("c", t.decl().name())] = len(self.atoms) - 1
        return self.rat_atom(i)

    def inverse_pair(self, name, args, ch):
        """P(a, Pinv(a, y)) = y for 0 <= y < 1 and Pinv(a, P(a, x)) = x for x >= 0 (a > 0)"""
        n, d = self.cancel(args[1])
        if d != {frozenset(): Fraction(1)} or len(n) != 1:
            return None
        (mono, c), = n.items()
        if c != 1 or len(mono) != 1:
            return None
        (at, e), = mono
        if e != 1 or self.atoms[at][0] != "app" or self.atoms[at][1][0] != INVERSE[name]:
            return None
        (_, iargs), term = self.atoms[at][1:]
        if not self.equal(iargs[0], args[0]) or not self.pos(ch[0]):
            return None
        y = term.arg(1)
        if not self.nonneg(y) or name == "gammainc" and not self.pos(1 - y):
            return None
        return iargs[1]

    def prove_eq(self, a, b):
        try:
            return self.equal(self.of(a), self.of(b))
        except (TooBig, RecursionError, ZeroDivisionError, OverflowError):
            return False


def diff(t, x):
    """symbolic derivative d t / d x over the supported operations (else None)"""
    if not _has(t, x):
        return z3.RealVal(0)
    if t.eq(x):
        return z3.RealVal(1)
    k, ch = t.decl().kind(), t.children()
    if k == z3.Z3_OP_ADD:
        return sum((diff(c, x) for c in ch[1:]), diff(ch[0], x))
    if k == z3.Z3_OP_SUB:
        r = diff(ch[0], x)
        for c in ch[1:]:
            r = r - diff(c, x)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -diff(ch[0], x)
    if k == z3.Z3_OP_MUL:
        tot = z3.RealVal(0)
        for i in range(len(ch)):
            term = diff(ch[i], x)
            for j in range(len(ch)):
                if j != i:
                    term = term * ch[j]
            tot = tot + term
        return tot
    if k == z3.Z3_OP_DIV:
        a, b = ch
        return (diff(a, x) * b - a * diff(b, x)) / (b * b)
    n = t.decl().name()
    if n == "exp":
        return t * diff(ch[0], x)
    if n == "pow" and not _has(ch[1], x):
        return ch[1] * t / ch[0] * diff(ch[0], x)
    if n == "sqrt":
        return diff(ch[0], x) / (2 * t)
    if n == "gammainc" and not _has(ch[0], x):
        a, y = ch
        f = t.decl()
        ex = z3.Function("exp", z3.RealSort(), z3.RealSort())
        pw = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
        ga = z3.Function("gamma", z3.RealSort(), z3.RealSort())
        return pw(y, a) / y * ex(-y) / ga(a) * diff(y, x)
    raise NotImplementedError("derivative of %s" % n)


def _has(t, x):
    if t.eq(x):
        return True
    return any(_has(c, x) for c in t.children())
