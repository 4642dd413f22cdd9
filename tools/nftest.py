"""Self-test of the normal-form prover: no equality it proves may be numerically false (random terms, random values)."""
import sys, os, random, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(10000)
import z3
from vc import nf

R = z3.RealSort()
F1 = {n: z3.Function(n, R, R) for n in ("sqrt", "exp", "ln", "log10", "sin", "cos", "absr")}
POW = z3.Function("pow", R, R, R)
V = {n: z3.Real(n) for n in "abcxyz"}          # a b c positive, x y z any sign


def val(t, env):
    k, ch = t.decl().kind(), [val(c, env) for c in t.children()]
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return float(t.as_fraction())
    if k == z3.Z3_OP_ADD: return sum(ch)
    if k == z3.Z3_OP_SUB: return ch[0] - sum(ch[1:])
    if k == z3.Z3_OP_UMINUS: return -ch[0]
    if k == z3.Z3_OP_MUL: return math.prod(ch)
    if k == z3.Z3_OP_DIV: return ch[0] / ch[1]
    n = t.decl().name()
    if n == "pow": 
        r = ch[0] ** ch[1]
        if isinstance(r, complex): raise ValueError
        return r
    f = {"sqrt": math.sqrt, "exp": math.exp, "ln": math.log, "log10": math.log10, "sin": math.sin, "cos": math.cos, "absr": abs}.get(n)
    return f(*ch) if f else env[n]


def term(rng, d, positive=False):
    r = rng.random()
    if d == 0 or r < .15:
        return V[rng.choice("abc" if positive else "abcxyz")] if rng.random() < .8 else z3.Q(rng.randint(1, 4), rng.randint(1, 3))
    if positive:
        op = rng.choice(["+", "*", "/", "pow", "sqrt", "exp"])
        if op == "exp": return F1["exp"](term(rng, d - 1))
        if op == "sqrt": return F1["sqrt"](term(rng, d - 1, True))
        if op == "pow": return POW(term(rng, d - 1, True), term(rng, d - 1, rng.random() < .5))
        a, b = term(rng, d - 1, True), term(rng, d - 1, True)
        return a + b if op == "+" else a * b if op == "*" else a / b
    op = rng.choice(["+", "-", "*", "/", "ln", "sin", "cos", "absr", "sq", "sqrtsum", "npow", "pos"])
    if op == "pos": return term(rng, d, True)
    if op in ("ln",): return F1["ln"](term(rng, d - 1, True))
    if op in ("sin", "cos", "absr"): return F1[op](term(rng, d - 1))
    a, b = term(rng, d - 1), term(rng, d - 1)
    if op == "sq": return a * a
    if op == "sqrtsum": return F1["sqrt"](a * a + b * b)
    if op == "npow": return POW(F1["absr"](a) / term(rng, d - 1, True), term(rng, d - 1, True))
    return a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b


def rewrite(rng, t):
    """a random equal (or, sometimes, wrong) variant"""
    ch = t.children()
    if not ch:
        return t
    n = t.decl().name()
    new = [rewrite(rng, c) for c in ch]
    k = t.decl().kind()
    r = rng.random()
    if k == z3.Z3_OP_MUL and r < .3: return new[1] * new[0]
    if k == z3.Z3_OP_DIV and r < .3: return new[0] * (1 / new[1])
    if n == "sqrt" and r < .4: return POW(new[0], z3.Q(1, 2))
    if n == "pow" and r < .4: return F1["exp"](new[1] * F1["ln"](new[0]))
    if n == "pow" and r < .5: return POW(new[0], new[1] / 2) * POW(new[0], new[1] / 2)
    if n == "absr" and r < .3: return F1["sqrt"](new[0] * new[0])
    if n == "absr" and r < .5: return new[0]                      # wrong in general
    if n == "absr" and r < .7: return F1["absr"](-new[0])
    if n == "cos" and r < .2: return F1["sin"](new[0])
    if k == z3.Z3_OP_ADD and r < .06: return new[0] - new[1]
    return t.decl()(*new)


def main(n, seed):
    rng = random.Random(seed)
    proved = wrong = 0
    for it in range(n):
        t = term(rng, rng.randint(1, 3))
        u = rewrite(rng, t) if rng.random() < .8 else term(rng, 2)
        s = z3.Solver()
        s.set("timeout", 200)
        for v in "abc": s.add(V[v] > 0)
        memo = {}

        def facts(x, acc):
            if x.get_id() in acc: return
            acc[x.get_id()] = x
            for c in x.children(): facts(c, acc)
        acc = {}
        facts(t, acc), facts(u, acc)
        for x in acc.values():
            m = x.decl().name()
            if m == "exp": s.add(x > 0)
            if m == "absr": s.add(z3.Or(x == x.arg(0), x == -x.arg(0)), x >= 0)
            if m == "sqrt": s.add(z3.Implies(x.arg(0) >= 0, z3.And(x >= 0, x * x == x.arg(0))), z3.Implies(x.arg(0) > 0, x > 0))
            if m == "pow": s.add(z3.Implies(x.arg(0) > 0, x > 0), z3.Implies(z3.And(x.arg(0) == 0, x.arg(1) > 0), x == 0))
        pos = lambda q: s.check(z3.Not(q > 0)) == z3.unsat
        nn = lambda q: s.check(z3.Not(q >= 0)) == z3.unsat
        try:
            ok = nf.NF(pos, nn).prove_eq(t, u)
        except Exception as e:
            print("EXC", type(e), e, t, u)
            raise
        if not ok:
            continue
        proved += 1
        for _ in range(12):
            env = {v: rng.uniform(.2, 3) if v in "abc" else rng.choice([-1, 1]) * rng.uniform(.05, 2.5) for v in V}
            try:
                p, q = val(t, env), val(u, env)
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            if abs(p) > 1e12 or abs(q) > 1e12:
                continue
            if abs(p - q) > 1e-6 * max(1, abs(p)):
                wrong += 1
                print("WRONG", t, "|", u, env, p, q)
                break
    print("terms", n, "proved equal", proved, "wrong", wrong)
    return wrong


if __name__ == "__main__":
    sys.exit(1 if main(int(sys.argv[1]) if len(sys.argv) > 1 else 1500, int(sys.argv[2]) if len(sys.argv) > 2 else 0) else 0)
