"""Small probabilities (C19): relative accuracy in the standard model of floating-point arithmetic.

Every operation returns its exact result times 1 + d with |d| <= c u (u = 2^-53; c = 1 for + - * / sqrt, c = 2 for the
elementary functions).  For the operations of a path, `Acc` gives a term E that bounds the absolute error of the result
to first order, in units of u; the obligation is E <= C (1 + size) |result|, where size is the conditioning of the
problem itself (the logarithm of the result, say).  The rules for exp_m1 and ln_1p are lemmas, proved below."""
import time
from fractions import Fraction as Q
import specs, smt, canon, prove2
from canon import Canon
from lemmas import *
from specs import FAM, PINF, NINF
from symex import Unsupported, Fl, Agg
from term import *
from prove3 import contracts, lemma

X, P_, K_ = specs.x_, specs.p_, specs.k_
HALF = const(Q(1, 2))


class Lost(Exception):
    pass


def dyadic(q):
    d = q.denominator
    return d & (d - 1) == 0 and abs(q.numerator) < 1 << 53


class Acc:
    def __init__(self, pc):
        self.pc = list(pc)
        self.c = Canon(self.pc)
        self.memo = {}
        self.named = {}
        self.most = {}
        self.triangle = False
        self.given = []

    def abs(self, t):
        if t.op == "c":
            return const(abs(t.a[0]))
        s = None
        try:
            s = self.c.sign(t)
        except (canon.CanonError, RecursionError, ZeroDivisionError):
            pass
        if s in ("+", "0+", "0"):
            return t
        if s in ("-", "0-"):
            return neg(t)
        if smt.check(self.pc + [lt(t, ZERO)], 600) == "unsat":
            return t
        if smt.check(self.pc + [lt(ZERO, t)], 600) == "unsat":
            return neg(t)
        return ite(lt(t, ZERO), neg(t), t)

    def sgn(self, t):
        """sign facts of t: '+', '-', or None"""
        a = self.abs(t)
        return "+" if a is t else "-" if a.op != "ite" else None

    def mag(self, t, x, y):
        """an upper bound for |x + y|: itself where its sign is known, the triangle inequality for sums of the kernels"""
        if self.triangle or any(x.op == "v" and str(x.a[0]).startswith("@") for x in free(t)):
            s = self.abs(t)
            if s.op == "ite":
                s = self.most[t] = add(self.most.get(x) or self.abs(x), self.most.get(y) or self.abs(y))
            return s
        return self.abs(t)

    def go(self, raw):
        """(value, bound on the absolute error, bound on the relative error or None)"""
        k = id(raw)
        if k not in self.memo:
            r = self._go(raw)
            if len(r) == 2:                 # absolute
                t, e = r
                r = (t, e, ZERO if e is ZERO else None)
            else:                           # relative
                t, _, rel = r
                r = (t, mul(self.abs(t), rel), rel)
            self.memo[k] = (r, raw)
        return self.memo[k][0]

    def rel(self, n):
        t, e, r = n
        return r if r is not None else div(e, self.abs(t))

    def _go(self, raw):
        op, a = raw[0], raw[1:]
        A = self.abs
        if op == "leaf":
            t = a[0]
            return t, None, ONE if t.op == "c" and not dyadic(t.a[0]) or t.op == "pi" else ZERO
        if op == "i2r":
            return i2r(a[0]), ZERO
        if op == "neg":
            t, e, r = self.go(a[0])
            return (neg(t), None, r) if r is not None else (neg(t), e)
        if op in ("Add", "Sub"):
            (x, ex, rx), (y, ey, ry) = self.go(a[0]), self.go(a[1])
            t = add(x, y) if op == "Add" else sub(x, y)
            # adding zero is exact, and so is adding integers
            if x is ZERO and y is ZERO or ex is ZERO and ey is ZERO and unreal(t) is not None:
                return t, ZERO
            if x is ZERO or y is ZERO:
                return t, add(ex, ey)
            if ex is ZERO and ey is ZERO:
                return t, None, ONE
            if rx is not None and ry is not None and (rx is ZERO or ry is ZERO) and self.positive(x) and self.positive(y if op == "Add" else neg(y)):
                return t, None, add(rx, ry, ONE)    # of one sign: no worse than the worse of the two
            return t, add(ex, ey, self.mag(t, x, y))
        if op == "Mul":
            n, m = self.go(a[0]), self.go(a[1])
            (x, ex, rx), (y, ey, ry) = n, m
            t = mul(x, y)
            two = any(z.op == "c" and z.a[0] != 0 and dyadic(z.a[0]) and abs(z.a[0]).numerator & (abs(z.a[0]).numerator - 1) == 0 for z in (x, y))
            if rx is not None and ry is not None:
                return t, None, add(rx, ry, ZERO if two else ONE)
            return t, add(mul(A(x), ey), mul(A(y), ex), ZERO if two else A(t))
        if op == "Div":
            n, m = self.go(a[0]), self.go(a[1])
            (x, ex, rx), (y, ey, ry) = n, m
            t = div(x, y)
            if rx is not None:
                return t, None, add(rx, self.rel(m), ONE)
            return t, add(div(ex, A(y)), mul(A(t), div(ey, A(y))), A(t))
        if op == "fma":
            (x, ex, _), (y, ey, _), (z, ez, _) = (self.go(u) for u in a)
            t = add(mul(x, y), z)
            return t, add(mul(A(x), ey), mul(A(y), ex), ez, A(t))
        if op == "exp":
            x, ex, _ = self.go(a[0])
            return fn("exp", x), None, add(ex, const(2))
        if op == "exp_m1":
            x, ex, rx = self.go(a[0])
            t = sub(fn("exp", x), ONE)
            s = self.sgn(x)
            if ex is ZERO:
                return t, None, const(2)
            if s == "-":            # |x| e^x <= |e^x - 1|
                return t, None, add(self.rel((x, ex, rx)), const(2))
            if s == "+":            # x e^x <= (1 + x) (e^x - 1)
                return t, None, add(mul(add(ONE, x), self.rel((x, ex, rx))), const(2))
            raise Lost("sign of the argument of exp_m1")
        if op == "ln":
            n = self.go(a[0])
            t = fn("ln", n[0])
            return t, add(self.rel(n), mul(const(2), A(t)))
        if op == "ln_1p":
            x, ex, _ = self.go(a[0])
            t = fn("ln", add(ONE, x))
            if ex is ZERO:
                return t, None, const(2)
            return t, add(div(ex, add(ONE, x)), mul(const(2), A(t)))
        if op == "sqrt":
            n = self.go(a[0])
            return sqrt(n[0]), None, add(mul(HALF, self.rel(n)), ONE)
        if op == "powi":
            n = self.go(a[0])
            k = a[1]
            return power(n[0], k), None, add(mul(const(abs(k)), self.rel(n)), const(2 * abs(k)))
        if op == "powf":
            n, (y, ey, _) = self.go(a[0]), self.go(a[1])
            x = n[0]
            t = fn("exp", mul(y, fn("ln", x)))
            return t, None, add(mul(A(y), self.rel(n)), mul(A(fn("ln", x)), ey), const(2))
        if op == "stirlerr":        # its contract: within 8 u of the true value (kernel obligations)
            x, ex, _ = self.go(a[0])
            if ex is not ZERO:
                raise Lost("inexact count")
            return self.opaque("stirlerr", (x,)), const(8)
        if op == "ln_d0":           # its contract: relative error 256 u; its conditioning in np is |1 - x/np| np
            (x, ex, _), (y, ey, ry) = self.go(a[0]), self.go(a[1])
            if ex is not ZERO:
                raise Lost("inexact count")
            t = self.opaque("ln_d0", (x, y))
            return t, add(mul(const(256), t), mul(A(sub(y, x)), self.rel((y, ey, ry))))
        if op in ("incb", "incg", "iincb", "phiinv"):
            # the dependency's own accuracy is assumed; what it is given has to be accurate
            self.given.append((op, [self.go(u) for u in a]))
            return self.opaque(op, tuple(self.go(u)[0] for u in a)), ZERO
        raise Lost(op)

    def positive(self, t):
        return t.op == "c" and t.a[0] >= 0 or self.sgn(t) == "+"

    def opaque(self, op, args):
        k = (op, args)
        if k not in self.named:
            v = var("@%s%d" % (op, len(self.named)))
            self.named[k] = v
            if op == "ln_d0":
                self.pc.append(le(ZERO, v))
            if op == "stirlerr":        # 0 < stirlerr(n) <= 1 - ln sqrt(2 pi), the value at one
                self.pc += [le(ZERO, v), le(v, const(Q(1, 12)))]
            if op in ("incb", "incg", "iincb"):
                self.pc.append(lt(ZERO, v))
            self.c = Canon(self.pc)
        return self.named[k]


# ------------------------------------------------------------------ the claims
def bound_goal(p, nm, ac, t, e, rel, size, C, F, meth):
    """e <= C (1 + size) |t|, decided on the quotient in normal form"""
    t0 = time.time()
    pc = list(ac.pc)
    bound = mul(const(C), add(ONE, size))
    if e is ZERO:
        return p.ob(nm, ("proved", "syntactic"), F, meth, pc, "", t0)
    if rel is not None:
        res = p.prove(pc, le(rel, bound))
        if res[0] == "proved":
            return p.ob(nm, res, F, meth, pc, "", t0)
    try:
        c = Canon(pc)
        q = rel if rel is not None else div(e, ac.abs(t))
        r = c.term(c.conv(q))
        g = le(r, bound)
        res = p.prove(pc, g)
        if res[0] != "proved":
            # every monomial of the difference is provably not negative
            s = c.sign(c.term(c.conv(sub(bound, q))))
            res = ("proved", "canon+z3") if s in ("+", "0+") else res
        if res[0] != "proved":
            res2 = p.prove(pc, le(e, mul(bound, ac.abs(t))))
            res = res2 if res2[0] == "proved" else res
        o = p.ob(nm, res, F, meth, pc, show(g)[:300], t0)
    except (canon.CanonError, RecursionError, ZeroDivisionError):
        o = p.goal(nm, pc, le(e, mul(bound, ac.abs(t))), F, meth)
    if not ac.named:
        o.terms = ("goal", le(e, mul(bound, ac.abs(t))))
    return o


def outcomes(p, F, meth):
    key = ("acc run", F.name, meth)
    if key not in p.done:
        try:
            p.done[key] = p.run_method(F, meth)
        except Unsupported as e:
            p.done[key] = e
    return p.done[key]


def claim(p, F, meth, where, size, C=32, what="relative error", tiny=lambda t: t):
    """on every path of the method, under `where`: the error is at most C (1 + size) u times the result"""
    base = "%s::%s accuracy" % (F.name, meth)
    r = outcomes(p, F, meth)
    if isinstance(r, Unsupported):
        return p.lost(base, r, F, meth)
    ex, outs, s0 = r
    n = 0
    for i, o in enumerate(outs):
        pc = list(o.st.pc) + list(where)
        if o.kind != "ret" or not isinstance(o.val, Fl) or not sat(pc):
            continue
        n += 1
        nm = "%s/path%d" % (base, i)
        try:
            ac = Acc(pc)
            t, e, rel = ac.go(o.val.raw)
        except (Lost, canon.CanonError, RecursionError, ZeroDivisionError) as err:
            p.ob(nm, ("open", "unsupported"), F, meth, pc, "%s: %s" % (type(err).__name__, str(err)[:100]))
            continue
        if not ac.named:
            # the tree is the value
            p.eq(nm + ": the operations give the value", pc, t, o.val.t, F, meth)
        for op, args in ac.given:
            for k, (x, ex_, rx_) in enumerate(args):
                bound_goal(p, "%s: argument %d of %s is accurate" % (nm, k, op), ac, x, ex_, rx_, ZERO, 8, F, meth)
        if t is ZERO or e is ZERO:
            p.ob(nm + ": exact", ("proved", "syntactic"), F, meth, pc)
            continue
        sz = size(ac) if callable(size) else size
        bound_goal(p, nm + ": " + what, ac, t, e, rel, sz, C, F, meth)
    p.goal(base + ": some path", [], TRUE if n else FALSE, F)


def C19(p):
    sp = specs
    f = FAM["Exponential"]
    inside = [lt(ZERO, P_), lt(P_, ONE)]
    for m in ("distribution", "inverse", "density"):
        contracts(p, f, m)
    claim(p, f, "distribution", [lt(ZERO, X)], ZERO)
    claim(p, f, "inverse", inside, ZERO)
    claim(p, f, "density", [lt(ZERO, X)], mul(sp.lam, X))
    for name, sc in (("Logistic", sp.s_), ("Laplace", sp.bl)):
        f = FAM[name]
        contracts(p, f, "distribution", "density")
        claim(p, f, "distribution", [lt(X, sp.mu_)], div(sub(sp.mu_, X), sc))
        for side, g in ((1, lt(sp.mu_, X)), (-1, lt(X, sp.mu_))):
            claim(p, f, "density", [g], mul(const(side), div(sub(X, sp.mu_), sc)))
    f = FAM["Gaussian"]
    contracts(p, f, "density", "inverse")
    claim(p, f, "density", [ne(X, sp.mu_)], power(div(sub(X, sp.mu_), sp.sg), 2))
    claim(p, f, "inverse", inside + [eq(sp.mu_, ZERO)], ZERO)
    f = FAM["Beta"]
    contracts(p, f, "distribution", "density")
    claim(p, f, "distribution", [lt(f.support[0], X), lt(X, f.support[1])], ZERO)
    f = FAM["Gamma"]
    contracts(p, f, "distribution", "density")
    claim(p, f, "distribution", [lt(ZERO, X)], ZERO)
    for name in ("Bernoulli", "Bernoulli.with_failure"):
        f = FAM[name]
        contracts(p, f, "mass", "distribution", "mean", "variance", "deviation")
        for m in ("mass", "distribution", "mean", "variance", "deviation"):
            claim(p, f, m, [], ZERO)
    for name in ("Binomial", "Binomial.with_failure"):
        f = FAM[name]
        contracts(p, f, "mass", "distribution", "mean", "variance", "deviation")
        for m in ("mean", "variance", "deviation"):
            claim(p, f, m, [le(IONE, sp.n_)], ZERO)
        n = i2r(sp.n_)
        lnp, lnq = neg(fn("ln", f.p)), neg(fn("ln", f.q))
        claim(p, f, "mass", [le(K_, sp.n_), eq(K_, IZERO)], mul(n, add(ONE if f.q.op != "v" else ZERO, lnq)))
        claim(p, f, "mass", [le(K_, sp.n_), eq(K_, sp.n_), lt(IZERO, K_)], mul(n, add(ONE if f.p.op != "v" else ZERO, lnp)))

        def inner(ac):
            # the exponent is minus the two deviances, each as large as they are; np and nq carry one or two roundings
            k = i2r(K_)
            ds = [v for (op, a), v in ac.named.items() if op == "ln_d0"]
            return add(*(ds + [ac.abs(sub(k, mul(n, f.p)))]))
        claim(p, f, "mass", [lt(IZERO, K_), lt(K_, sp.n_)], inner, C=512)
        claim(p, f, "distribution", [le(ZERO, X), lt(X, ONE), le(IONE, sp.n_)], mul(n, add(ONE if f.q.op != "v" else ZERO, lnq)))
        claim(p, f, "distribution", [le(ONE, X), lt(X, n)], ZERO)
