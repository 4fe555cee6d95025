"""z3 / cvc5 back ends: translation of terms and queries."""
import time, os, subprocess, tempfile
from fractions import Fraction as Q
import z3
from term import *

RPM = 1000          # z3 resource units per "millisecond" of budget
STATS = {"z3": [0, 0.0], "cvc5": [0, 0.0]}
MONO = {"exp": 1, "ln": 1, "erf": 1, "atan": 1, "phiinv": 1}


BIG = 150
_size = {}


def size(t):
    """nodes of the term written out"""
    r = _size.get(t)
    if r is None:
        r = 1 + sum(size(u) for u in t.a if isinstance(u, T))
        _size[t] = r
    return r


class Enc:
    """Translate terms; special functions become fresh constants constrained by
    instances of the axioms listed in AXIOMS."""

    def __init__(self, axioms=True):
        self.memo, self.side, self.apps, self.axioms = {}, [], {}, axioms
        self.arrs = {}
        self.used = set()
        self.pos_arrays = set()

    def t(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._t(t)
            self.memo[t] = r
        return r

    def fresh(self, t, sort):
        n = "%s_%d" % (t.op, t.id)
        return z3.Int(n) if sort == "I" else z3.Real(n)

    def _t(self, t):
        op, a = t.op, t.a
        if op in ("+", "*") and t.s == "R" and size(t) > BIG:
            # a constant in place of a huge polynomial: fewer facts, so "unsat" stays sound
            return self.fresh(t, "R")
        if op == "c":
            if t.s == "I":
                return z3.IntVal(int(a[0]))
            return z3.RealVal(str(a[0]))
        if op == "v":
            n = str(a[0])
            return z3.Int(n) if t.s == "I" else z3.Bool(n) if t.s == "B" else z3.Real(n)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "+":
            return z3.Sum([self.t(u) for u in a])
        if op == "*":
            return z3.Product([self.t(u) for u in a])
        if op == "pow":
            b, e = self.t(a[0]), a[1]
            if e.denominator == 1 and e > 0:
                return z3.Product([b] * int(e))
            if e.denominator == 1:
                r = self.fresh(t, "R")
                self.side.append(r * z3.Product([b] * int(-e)) == 1)
                return r
            r = self.fresh(t, "R")
            p, q = abs(e.numerator), e.denominator
            rq = z3.Product([r] * q) if q > 1 else r
            bp = z3.Product([b] * p) if p > 1 else b
            if e > 0:
                self.side += [r >= 0, rq == bp, (r > 0) == (b > 0)]
            else:
                self.side += [r > 0, rq * bp == 1]
            return r
        if op == "lt":
            return self.t(a[0]) < self.t(a[1])
        if op == "le":
            return self.t(a[0]) <= self.t(a[1])
        if op == "eq":
            return self.t(a[0]) == self.t(a[1])
        if op == "not":
            return z3.Not(self.t(a[0]))
        if op == "and":
            return z3.And([self.t(u) for u in a])
        if op == "or":
            return z3.Or([self.t(u) for u in a])
        if op == "ite":
            return z3.If(self.t(a[0]), self.t(a[1]), self.t(a[2]))
        if op == "i2r":
            return z3.ToReal(self.t(a[0]))
        if op == "pi":
            r = z3.Real("pi")
            self.side += [r > z3.Q(31415926535, 10 ** 10), r < z3.Q(31415926536, 10 ** 10)]
            return r
        if op == "sel":
            f = self.arr(a[0])
            return f(self.t(a[1]))
        if op == "forall":
            v, lo, hi, body = a
            zv = self.t(v)
            e2 = Enc(False)
            e2.memo, e2.arrs = self.memo, self.arrs
            n0 = len(e2.side)
            zb = e2.t(body)
            pre = [zv >= self.t(lo), zv < self.t(hi)]
            return z3.ForAll([zv], z3.Implies(z3.And(pre + e2.side), zb))
        if op in ("floor", "trunc", "round"):
            x = self.t(a[0])
            down, h = (lambda u: z3.ToReal(z3.ToInt(u))), z3.Q(1, 2)
            if op == "floor":
                return down(x)
            if op == "trunc":
                return z3.If(x >= 0, down(x), -down(-x))
            k = z3.Int("%s_%d" % (op, t.id))
            kr = z3.ToReal(k)
            self.side += [z3.Implies(x >= 0, z3.And(kr <= x + h, x + h < kr + 1)),
                          z3.Implies(x < 0, z3.And(kr >= x - h, x - h > kr - 1))]
            return kr
        if op == "r2i":
            x = self.t(a[0])
            k = z3.Int("r2i_%d" % t.id)
            self.side += [z3.Implies(x >= 0, k == z3.ToInt(x)), k >= 0]
            return k
        if op == "idiv":
            return self.t(a[0]) / self.t(a[1])
        if op == "imod":
            return self.t(a[0]) % self.t(a[1])
        if op == "sum":
            r = self.fresh(t, "R")
            lo, hi = self.t(a[1]), self.t(a[2])
            used = []
            if nonneg(a[3], a[0] if a[1] is IZERO or a[1].op == "c" and a[1].a[0] >= 0 else None, self.pos_arrays, used):
                inside = [z3.And(self.t(u) <= lo, hi <= self.t(w)) for u, w in used]
                self.side.append(z3.Implies(z3.And(inside), r >= 0))
            return r
        # functions
        r = self.fresh(t, t.s)
        xs = [self.t(u) for u in a if isinstance(u, T)]
        self.apps.setdefault(op, []).append((t, r, xs))
        if self.axioms:
            self._facts(op, t, r, xs)
        return r

    def arr(self, v):
        n = str(v.a[0])
        if n not in self.arrs:
            self.arrs[n] = z3.Function("arr_" + n, z3.IntSort(), z3.RealSort())
        return self.arrs[n]

    def _facts(self, op, t, r, x):
        S = self.side
        if op == "exp":
            S += [r > 0, (x[0] > 0) == (r > 1), (x[0] == 0) == (r == 1), r >= 1 + x[0]]
            for (t2, r2, x2) in self.apps[op][:-1]:
                if add(t.a[0], t2.a[0]) is ZERO:
                    S.append(r * r2 == 1)
        elif op == "ln":
            S += [z3.Implies(x[0] > 0, z3.And((x[0] > 1) == (r > 0), (x[0] == 1) == (r == 0), r <= x[0] - 1))]
        elif op == "erf":
            S += [r > -1, r < 1, (x[0] > 0) == (r > 0), (x[0] == 0) == (r == 0)]
        elif op == "atan":
            p = self.t(PI)
            S += [2 * r > -p, 2 * r < p, (x[0] > 0) == (r > 0), (x[0] == 0) == (r == 0)]
        elif op == "tan":
            p = self.t(PI)
            S += [z3.Implies(z3.And(2 * x[0] > -p, 2 * x[0] < p), z3.And((x[0] > 0) == (r > 0), (x[0] == 0) == (r == 0)))]
        elif op == "incb":
            S += [r >= 0, r <= 1, z3.Implies(z3.And(x[0] > 0, x[0] < 1), z3.And(r > 0, r < 1)),
                  z3.Implies(x[0] <= 0, r == 0), z3.Implies(x[0] >= 1, r == 1)]
        elif op == "incg":
            S += [r >= 0, r < 1, z3.Implies(x[0] > 0, r > 0), z3.Implies(x[0] <= 0, r == 0)]
        elif op == "iincb":
            S += [r >= 0, r <= 1, z3.Implies(z3.And(x[0] > 0, x[0] < 1), z3.And(r > 0, r < 1)),
                  z3.Implies(x[0] <= 0, r == 0), z3.Implies(x[0] >= 1, r == 1)]
        elif op == "phiinv":
            S += [(x[0] > z3.Q(1, 2)) == (r > 0), (x[0] == z3.Q(1, 2)) == (r == 0)]
        for (t2, r2, x2) in self.apps[op][:-1]:
            if len(x) == 1 and op in MONO:
                dom = z3.BoolVal(True)
                if op == "ln":
                    dom = z3.And(x[0] > 0, x2[0] > 0)
                S += [z3.Implies(dom, z3.And((x[0] < x2[0]) == (r < r2), (x[0] == x2[0]) == (r == r2)))]
            elif op in ("incb", "incg", "iincb"):
                same = z3.And([u == w for u, w in zip(x[1:], x2[1:])])
                S += [z3.Implies(z3.And(same, x[0] <= x2[0]), r <= r2), z3.Implies(z3.And(same, x[0] >= x2[0]), r >= r2)]
            else:
                S += [z3.Implies(z3.And([u == w for u, w in zip(x, x2)]), r == r2)]


def pos_arrays(bs):
    """arrays that a quantified fact among bs says are nonnegative"""
    out = set()
    for b in bs:
        if b.op == "forall":
            for g in (b.a[3].a if b.a[3].op == "and" else (b.a[3],)):
                if g.op == "le" and g.a[0] is ZERO and g.a[1].op == "sel" and g.a[1].a[1] is b.a[0]:
                    out.add((g.a[1].a[0], b.a[1], b.a[2]))
    return out


def nonneg(t, j, arrs, used):
    """structurally nonnegative summand, given that the range of j lies within every range put into `used`"""
    if t.op == "c":
        return t.a[0] >= 0
    if t.op == "pow":
        return t.a[1].denominator == 1 and t.a[1] % 2 == 0 or nonneg(t.a[0], j, arrs, used)
    if t.op in ("*", "+"):
        return all(nonneg(u, j, arrs, used) for u in t.a)
    if t.op == "i2r":
        return t.a[0] is j and j is not None
    if t.op == "sel":
        if t.a[1] is not j:
            return False
        for a, lo, hi in arrs:
            if t.a[0] is a:
                used.append((lo, hi))
                return True
        return False
    return t.op == "exp"


def check(bs, timeout=5000, axioms=True, want_model=False):
    """Satisfiability of the conjunction: 'sat' 'unsat' 'unknown' (+ model, encoder)."""
    for b in bs:
        if b is FALSE:
            return ("unsat", None, None) if want_model else "unsat"
    bs = [b for b in bs if b is not TRUE]
    e = Enc(axioms)
    e.pos_arrays = pos_arrays(bs)
    t0 = time.time()
    try:
        s = z3.Solver()
        # the resource limit decides (deterministic); the time limit is only a backstop
        s.set("rlimit", int(timeout * RPM))
        s.set("timeout", int(timeout * 20))
        s.set("random_seed", 1)
        fs = [e.t(b) for b in bs]
        s.add(*fs)
        s.add(*e.side)
        r = str(s.check())
    except z3.Z3Exception as ex:
        r = "unknown"
    STATS["z3"][0] += 1
    STATS["z3"][1] += time.time() - t0
    if want_model:
        return r, (s.model() if r == "sat" else None), e
    return r


def refute(pc, cs, timeout=2000):
    """Indices of the claims that some model of the facts violates, found in rounds of one query each; the flag says that
    the facts entail all the others."""
    e = Enc(True)
    e.pos_arrays = pos_arrays(list(pc) + list(cs))
    t0 = time.time()
    out, done, n = set(), False, 0
    try:
        s = z3.Solver()
        s.set("rlimit", int(timeout * RPM))
        s.set("timeout", int(timeout * 20))
        s.set("random_seed", 1)
        s.add(*[e.t(b) for b in pc if b is not TRUE])
        zs = [e.t(c) for c in cs]
        s.add(*e.side)
        while len(out) < len(cs):
            n += 1
            s.push()
            s.add(z3.Or(*[z3.Not(z) for i, z in enumerate(zs) if i not in out]))
            r = s.check()
            if r == z3.unsat:
                done = True
            if r != z3.sat:
                break
            m = s.model()
            bad = {i for i, z in enumerate(zs) if i not in out and z3.is_false(m.eval(z, model_completion=True))}
            s.pop()
            if not bad:
                break
            out |= bad
        else:
            done = True
    except z3.Z3Exception:
        done = False
    STATS["z3"][0] += n
    STATS["z3"][1] += time.time() - t0
    return out, done


def smt2(bs):
    e = Enc(True)
    e.pos_arrays = pos_arrays(bs)
    s = z3.Solver()
    s.add(*[e.t(b) for b in bs if b is not TRUE])
    s.add(*e.side)
    return s.to_smt2()


def cvc5_check(bs, timeout=5):
    txt = smt2(bs)
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt)
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), f.name], capture_output=True, text=True,
                           timeout=timeout + 5)
        out = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
    except Exception:  # noqa
        out = "unknown"
    os.unlink(f.name)
    STATS["cvc5"][0] += 1
    STATS["cvc5"][1] += time.time() - t0
    return out if out in ("sat", "unsat") else "unknown"


def model_value(m, v):
    """Fraction/int of a variable in a z3 model (approximating algebraic numbers)."""
    if m is None:
        return None
    z = z3.Int(str(v.a[0])) if v.s == "I" else z3.Real(str(v.a[0]))
    r = m.eval(z, model_completion=True)
    if z3.is_int_value(r):
        return int(r.as_long())
    if z3.is_rational_value(r):
        return Q(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_algebraic_value(r):
        a = r.approx(40)
        return Q(a.numerator_as_long(), a.denominator_as_long())
    return None


AXIOMS = [
    "exp>0, exp(x)>=1+x, exp and ln strictly increasing, ln x<=x-1, ln 1=0",
    "erf odd-signed, in (-1,1), strictly increasing; atan in (-pi/2,pi/2), increasing; tan sign on (-pi/2,pi/2)",
    "regularised incomplete beta/gamma functions: range [0,1], endpoints, nondecreasing in the argument",
    "standard normal quantile: strictly increasing, zero at 1/2",
]
