"""Moments and entropies from the densities (C09, C10, C11): the formulas in the contracts are derived, by lemmas over the
contracts of the densities, from the definitions of moment and entropy.

Shift lemmas: x^r f(x; s) = c f(x; s'), so that E X^r = c, the total probability at s' being one (C04).
Exponential shifts: exp(t x) f(x; s) = M(t) f(x; s'), and the moments are derivatives of M at zero.
Antiderivatives: G' = (x - m)^r f on every piece, and the increments of G add up to the moment.
Scores: d/ds ln f has expectation zero (the total probability does not depend on s)."""
from fractions import Fraction as Q
import specs, prove, prove3, prove6
from lemmas import *
from prove3 import lemma, eq_lemma
from specs import FAM, HALF, ln, exp, sq
from term import *

TWO = const(2)
t_ = var("t#")


def law(p):
    p.trust("expectation is linear, and unchanged by a change of variables")


def inner(F):
    """facts and density in the interior of the support (the last case of the density)"""
    rg = [r for r in regions(F.m["density"], p_pre(F), X) if r[1] is not None and isinstance(r[2], T) and r[2] is not ZERO]
    return rg


def p_pre(F):
    return list(F.pre)


def falling(x, r):
    return mul(*[sub(x, const(i)) for i in range(r)]) if r else ONE


def rising(x, r):
    return mul(*[add(x, const(i)) for i in range(r)]) if r else ONE


def from_raw(c):
    """mean and central moments of a variable with raw moments c[0..4]"""
    m = c[1]
    return (m, sub(c[2], sq(m)),
            add(c[3], mul(const(-3), m, c[2]), mul(TWO, power(m, 3))),
            add(c[4], mul(const(-4), m, c[3]), mul(const(6), sq(m), c[2]), mul(const(-3), power(m, 4))))


def raw_factorial(f):
    """raw moments from factorial moments f[0..4]"""
    return [ONE, f[1], add(f[2], f[1]), add(f[3], mul(const(3), f[2]), f[1]),
            add(f[4], mul(const(6), f[3]), mul(const(7), f[2]), f[1])]


def raw_of_cumulants(k):
    return k[1], k[2], k[3], add(k[4], mul(const(3), sq(k[2])))


class Mom:
    """mean and central moments m[1..4] of a family, with the lemmas that derive them"""

    def __init__(self, p, F):
        self.p, self.F = p, F
        self.pre = p_pre(F)
        self.m = None
        law(p)
        getattr(self, F.fam.lower())()

    def eq(self, what, pc, a, b):
        lemma(self.p, "lemma %s: %s" % (self.F.name, what), lambda: eq_lemma(self.p, "%s: %s" % (self.F.name, what), pc, a, b, self.F), self.F)

    # ------------------------------------------------------------ shift lemmas
    def shift(self, coordinate, moved, c):
        F = self.F
        for pd, od, f, i in inner(F):
            if not sat(od):
                continue
            for r in range(1, 5):
                self.eq("x^%d times density case %d is the density at shifted parameters" % (r, i), od,
                        mul(power(coordinate, r), f), mul(c[r], subst(f, moved(r))))

    def beta(self):
        F = self.F
        al, be, a, b = F.params
        self.jacobi(al, be, a, sub(b, a), lambda f, r: subst(f, {al: add(al, const(r))}))

    def jacobi(self, al, be, a, s, move):
        F = self.F
        z = div(sub(X, a), s)
        sm = add(al, be)
        c = [div(rising(al, r), rising(sm, r)) for r in range(5)]
        for pd, od, f, i in inner(F):
            if not sat(od) or f.op == "c" or X not in free(f):
                continue
            for r in range(1, 5):
                self.eq("z^%d times density case %d is the density at shifted parameters" % (r, i), od, mul(power(z, r), f), mul(c[r], move(f, r)))
        self.c = c
        m = from_raw(c)
        self.m = (add(a, mul(s, m[0])), mul(sq(s), m[1]), mul(power(s, 3), m[2]), mul(power(s, 4), m[3]))
        self.std = m

    def pert(self):
        F = self.F
        # a beta distribution with derived shapes: the density contract is that of beta, checked here
        B = FAM["Beta"]
        al, be, a, b = B.params
        A, L, C = F.params
        d = F.derived
        env = {al: d["pal"], be: d["pbe"], a: A, b: C}
        for (g, v), (h, w) in zip(F.m["density"], B.m["density"]):
            if isinstance(v, T):
                self.eq("density is that of beta with the derived shapes", self.pre + [subst(g, {})], v, prove_subst(w, env))
        m = Mom(self.p, B).m if not hasattr(self.p, "_beta") else self.p._beta
        self.p._beta = m
        self.m = tuple(prove_subst(t, env) for t in m)

    def gamma(self):
        k, th = self.F.params
        c = [mul(rising(k, r), power(th, r)) for r in range(5)]
        self.shift(X, lambda r: {k: add(k, const(r))}, c)
        self.m = from_raw(c)

    def exponential(self):
        l, = self.F.params
        G = FAM["Gamma"]
        k, th = G.params
        fact = [1, 1, 2, 6, 24]
        c = [mul(const(fact[r]), power(l, -r)) for r in range(5)]
        g = G.m["density"][-1][1]
        for r in range(1, 5):
            self.eq("x^%d times the density is a gamma density" % r, self.pre + [lt(ZERO, X)],
                    mul(power(X, r), self.F.m["density"][-1][1]), mul(c[r], subst(g, {k: const(r + 1), th: div(ONE, l)})))
        self.m = from_raw(c)

    def lognormal(self):
        F = self.F
        mu, sg = F.acc["mu"], F.acc["sigma"]
        c = [exp(add(mul(const(r), mu), mul(const(Q(r * r, 2)), sq(sg)))) for r in range(5)]
        f = F.m["density"][-1][1]
        L = FAM["Lognormal"]
        g = L.m["density"][-1][1]
        for r in range(1, 5):
            self.eq("x^%d times the density is the density at a shifted location" % r, self.pre + [lt(ZERO, X)],
                    mul(power(X, r), f), mul(c[r], prove_subst(g, {L.params[0]: add(mu, mul(const(r), sq(sg))), L.params[1]: sg})))
        self.m = from_raw(c)

    def binomial(self):
        F = self.F
        n, k = i2r(specs.n_), specs.k_
        fm = [mul(falling(n, r), power(F.p, r)) for r in range(5)]
        M = F.m["mass"][-1][1]
        for r in range(1, 5):
            pc = self.pre + [le(const(r, "I"), k), le(k, specs.n_)]
            self.eq("the falling power %d of x times the mass is the mass of %d fewer trials" % (r, r), pc, mul(falling(i2r(k), r), M),
                    mul(fm[r], subst(M, {specs.n_: sub(specs.n_, const(r, "I")), k: sub(k, const(r, "I"))})))
        # outcomes below r contribute nothing, and with fewer than r trials there are no others
        for r in range(1, 5):
            for j in range(r):
                self.eq("falling power %d of %d vanishes" % (r, j), [], falling(const(j), r), ZERO)
        self.m = from_raw(raw_factorial(fm))

    def bernoulli(self):
        F = self.F
        p, q = F.acc["p"], F.acc["q"]
        ms = [v for g, v in F.m["mass"]]
        self.eq("total mass", self.pre, add(ms[0], ms[1]), ONE)
        mean = add(mul(ZERO, ms[0]), mul(ONE, ms[1]))
        cm = lambda r: add(mul(power(sub(ZERO, mean), r), ms[0]), mul(power(sub(ONE, mean), r), ms[1]))
        self.m = (mean, cm(2), cm(3), cm(4))

    def categorical(self):
        # the contracts are the definitions: finite sums over the outcomes
        F = self.F
        P, K, j = specs.pk, specs.kk, specs.j_
        mean = sum_(j, IZERO, K, mul(i2r(j), sel(P, j)))
        self.m = (mean,) + tuple(sum_(j, IZERO, K, mul(power(sub(i2r(j), mean), r), sel(P, j))) for r in (2, 3, 4))
        self.pre = self.p.W.pre(F)

    # ------------------------------------------------------------ exponential shifts
    def derivatives(self, M):
        """cumulants from a cumulant generating function"""
        self.p.trust("the cumulants are the derivatives at zero of the logarithm of a moment generating function that is finite around zero")
        out, d = [None], M
        for r in range(4):
            d = diff(d, t_)
            out.append(subst(d, {t_: ZERO}))
        return raw_of_cumulants(out)

    def gaussian(self):
        F = self.F
        mu, sg = F.acc["mu"], F.acc["sigma"]
        G = FAM["Gaussian"]
        g = G.m["density"][-1][1]
        K = add(mul(t_, mu), mul(HALF, sq(t_), sq(sg)))
        self.eq("exp(t x) times the density is the density at a shifted location", self.pre, mul(exp(mul(t_, X)), F.m["density"][-1][1]),
                mul(exp(K), prove_subst(g, {G.params[0]: add(mu, mul(t_, sq(sg))), G.params[1]: sg})))
        self.m = self.derivatives(K)

    def laplace(self):
        F = self.F
        mu, b = F.params
        M = div(exp(mul(t_, mu)), sub(ONE, mul(sq(b), sq(t_))))
        pre = self.pre + [lt(ZERO, sub(ONE, mul(b, t_))), lt(ZERO, add(ONE, mul(b, t_)))]
        tot = []
        for (g, f), s in zip(F.m["density"], (-1, 1)):
            # antiderivative of exp(t x) f
            G = mul(exp(mul(t_, X)), f, div(b, sub(mul(b, t_), const(s))))
            pc = pre + [lt(X, mu) if s < 0 else lt(mu, X)]
            self.eq("antiderivative of exp(t x) f, side %+d" % s, pc, diff(G, X), mul(exp(mul(t_, X)), f))
            # exp(t x) f decays at the far end: the exponents have the sign of s
            rate = add(t_, div(const(-s), b))
            self.eq("exp(t x) f is exponential, side %+d" % s, pc, mul(exp(mul(t_, X)), f),
                    mul(div(exp(mul(t_, mu)), mul(TWO, b)), exp(mul(rate, sub(X, mu)))))
            self.p.goal("lemma %s: it decays, side %+d" % (F.name, s), pre, lt(rate, ZERO) if s > 0 else lt(ZERO, rate), F)
            tot.append(mul(const(-s), subst(G, {X: mu})))
        self.eq("the moment generating function", pre, add(*tot), M)
        self.m = self.derivatives(sub(mul(t_, mu), ln(sub(ONE, mul(sq(b), sq(t_))))))

    def logistic(self):
        F = self.F
        mu, s = F.acc["mu"], F.acc["s"]
        # x = Q(u) with u uniform: exp(t x) = exp(t mu) u^(t s) (1 - u)^(-t s), an unnormalised beta density
        u = specs.p_
        q = F.m["inverse"][-1][1]
        pc = self.pre + [lt(ZERO, u), lt(u, ONE), lt(ZERO, add(ONE, mul(t_, s))), lt(ZERO, sub(ONE, mul(t_, s)))]
        B = FAM["Beta"]
        al, be, a, b = B.params
        g = subst(B.m["density"][-1][1], {al: add(ONE, mul(t_, s)), be: sub(ONE, mul(t_, s)), a: ZERO, b: ONE, X: u})
        K = add(mul(t_, mu), fn("lgam", add(ONE, mul(t_, s))), fn("lgam", sub(ONE, mul(t_, s))))
        self.eq("exp(t x) at the quantile is a beta density", pc, exp(mul(t_, q)), mul(exp(K), g))
        self.p.trust("the second and fourth derivatives of ln Gamma at 1 are pi^2/6 and pi^4/15; cumulants are derivatives of the cumulant generating function")
        d1 = fn("digam", ONE)
        d2, d4 = div(sq(PI), const(6)), div(power(PI, 4), const(15))
        k1 = add(mu, mul(s, d1), neg(mul(s, d1)))
        self.m = raw_of_cumulants([None, k1, mul(TWO, sq(s), d2), ZERO, mul(TWO, power(s, 4), d4)])

    # ------------------------------------------------------------ antiderivatives
    def pieces(self, pcs):
        """pcs: [(facts, lo, hi, linear density)]"""
        F = self.F
        m = F.m["mean"][0][1]
        y = sub(X, m)
        tot = []
        for r in range(5):
            parts = []
            for i, (pc, lo, hi, f) in enumerate(pcs):
                beta_, alpha_ = diff(f, X), subst(f, {X: m})
                G = add(mul(alpha_, div(power(y, r + 1), const(r + 1))), mul(beta_, div(power(y, r + 2), const(r + 2))))
                self.eq("antiderivative of (x - mean)^%d f on piece %d" % (r, i), pc, diff(G, X), mul(power(y, r), f))
                parts.append(sub(subst(G, {X: hi}), subst(G, {X: lo})))
            tot.append(add(*parts))
        self.eq("total mass", self.pre, tot[0], ONE)
        self.eq("the mean", self.pre, tot[1], ZERO)
        self.m = (m, tot[2], tot[3], tot[4])

    def uniform(self):
        lo, hi = self.F.support
        f = self.F.m["density"][-1][1]
        self.pieces([(self.pre + [lt(lo, X), lt(X, hi)], lo, hi, f)])

    def triangular(self):
        a, b, c = self.F.params
        d = self.F.m["density"]
        ps = self.pre
        both = [lt(a, c), lt(c, b)]
        self.pre = ps + both
        self.pieces([(both + [lt(a, X), lt(X, c)], a, c, d[2][1]), (both + [lt(c, X), lt(X, b)], c, b, d[4][1])])
        # an empty side contributes nothing: the mode at an end
        first = self.m
        for end, f in ((b, d[2][1]), (a, d[4][1])):
            sub_ = {c: end}
            m = subst(first[0], sub_)
            y = sub(X, m)
            g = subst(f, sub_)
            pc = [lt(a, b), lt(a, X), lt(X, b)]
            for r in range(5):
                G = add(mul(subst(g, {X: m}), div(power(y, r + 1), const(r + 1))), mul(diff(g, X), div(power(y, r + 2), const(r + 2))))
                nm = "mode at %s: " % show(end)
                self.eq(nm + "antiderivative of (x - mean)^%d f" % r, pc, diff(G, X), mul(power(y, r), g))
                tot = sub(subst(G, {X: b}), subst(G, {X: a}))
                spec = self.F.m
                want = ONE if r == 0 else ZERO if r == 1 else subst(spec["variance"][0][1], sub_) if r == 2 else \
                    mul(subst(spec["skewness"][0][1], sub_), power(subst(spec["variance"][0][1], sub_), Q(3, 2))) if r == 3 else \
                    mul(add(const(3), subst(spec["kurtosis"][0][1], sub_)), sq(subst(spec["variance"][0][1], sub_)))
                self.eq(nm + "moment %d" % r, [lt(a, b)], tot, want)


def prove_subst(t, env):
    return subst(t, env)


def moments(p, F, which):
    if not any(w in F.m for w in which) or F.fam == "Cauchy":
        return
    cache = p.__dict__.setdefault("_moments", {})
    try:
        M = cache.get(F.name) or cache.setdefault(F.name, Mom(p, F))
    except (NoLemma, prove3.canon.CanonError, RecursionError, ZeroDivisionError) as e:
        p.ob("lemma %s: moments" % F.name, ("open", ""), F, None, (), "%s: %s" % (type(e).__name__, str(e)[:200]))
        return
    m = M.m
    pre = M.pre
    if "mean" in F.m and "mean" in which:
        M.eq("mean", pre, F.m["mean"][0][1], m[0])
    if "variance" in F.m and "variance" in which:
        M.eq("variance", pre, F.m["variance"][0][1], m[1])
    if "skewness" in F.m and "skewness" in which:
        pc = pre + F.mpre.get("skewness", [])
        M.eq("variance behind the skewness", pc, F.m["variance"][0][1], m[1])
        M.eq("skewness", pc, mul(F.m["skewness"][0][1], power(F.m["variance"][0][1], Q(3, 2))), m[2])
    if "kurtosis" in F.m and "kurtosis" in which:
        pc = pre + F.mpre.get("kurtosis", [])
        M.eq("kurtosis", pc, mul(add(const(3), F.m["kurtosis"][0][1]), sq(F.m["variance"][0][1])), m[3])


def C09(p):
    prove.PROPS_BASE["C09"](p)
    for F in FAM.values():
        moments(p, F, ("mean", "variance"))


def C10(p):
    prove.PROPS_BASE["C10"](p)
    for F in FAM.values():
        moments(p, F, ("skewness", "kurtosis"))


# ------------------------------------------------------------------ entropies
class Ent:
    """the entropy, derived from minus the logarithm of the density"""

    def __init__(self, p, F):
        self.p, self.F, self.pre = p, F, p_pre(F)
        self.h = None
        getattr(self, F.fam.lower())()
        if self.h is not None:
            law(p)
            self.eq("entropy", self.pre, F.m["entropy"][0][1], self.h)

    eq = Mom.eq

    def log(self, f, pc, w):
        self.eq("minus the logarithm of the density", pc, neg(ln(f)), w)

    def last(self):
        return self.F.m["density"][-1][1]

    def scores(self, what):
        self.p.trust("the derivative of the log-density in a parameter has expectation zero, the total probability being one (%s)" % what)

    def uniform(self):
        lo, hi = self.F.support
        self.h = neg(ln(self.last()))

    def exponential(self):
        l, = self.F.params
        self.log(self.last(), self.pre + [lt(ZERO, X)], sub(mul(l, X), ln(l)))
        self.h = sub(mul(l, self.F.m["mean"][0][1]), ln(l))

    def gaussian(self):
        mu, sg = self.F.acc["mu"], self.F.acc["sigma"]
        k = mul(HALF, ln(mul(TWO, PI, sq(sg))))
        self.log(self.last(), self.pre, add(k, div(sq(sub(X, mu)), mul(TWO, sq(sg)))))
        self.h = add(k, div(self.F.m["variance"][0][1], mul(TWO, sq(sg))))

    def laplace(self):
        F = self.F
        mu, b = F.params
        G = FAM["Gamma"]
        g = G.m["density"][-1][1]
        for (_, f), s in zip(F.m["density"], (-1, 1)):
            y = mul(const(s), sub(X, mu))
            pc = self.pre + [lt(ZERO, y)]
            self.log(f, pc, add(ln(mul(TWO, b)), div(y, b)))
            self.eq("distance from the location times the density, side %+d, is half a gamma density" % s, pc, mul(y, f),
                    mul(HALF, b, subst(g, {G.params[0]: TWO, G.params[1]: b, X: y})))
        self.h = add(ln(mul(TWO, b)), div(b, b))

    def logistic(self):
        F = self.F
        s = F.acc["s"]
        u = F.m["distribution"][-1][1]
        self.eq("density by the CDF", self.pre, self.last(), div(mul(u, sub(ONE, u)), s))
        v = var("u#")
        self.eq("antiderivative of the logarithm", [lt(ZERO, v)], diff(sub(mul(v, ln(v)), v), v), ln(v))
        self.p.trust("u ln u tends to zero with u, so that the mean of ln U is -1 for uniform U")
        self.h = add(ln(s), ONE, ONE)

    def lognormal(self):
        F = self.F
        mu, sg = F.acc["mu"], F.acc["sigma"]
        G = FAM["Gaussian"]
        pc = self.pre + [lt(ZERO, X)]
        g = subst(G.m["density"][-1][1], {G.params[0]: mu, G.params[1]: sg})
        self.eq("the logarithm is gaussian", pc, mul(X, self.last()), subst(g, {X: ln(X)}))
        k = ln(mul(sg, sqrt(mul(TWO, PI))))
        self.log(self.last(), pc, add(ln(X), k, div(sq(sub(ln(X), mu)), mul(TWO, sq(sg)))))
        self.h = add(mu, k, HALF)

    def gamma(self):
        k, th = self.F.params
        pc = self.pre + [lt(ZERO, X)]
        f = self.last()
        lg = add(mul(sub(k, ONE), ln(X)), neg(div(X, th)), neg(fn("lgam", k)), neg(mul(k, ln(th))))
        self.log(f, pc, neg(lg))
        el = add(fn("digam", k), ln(th))
        self.eq("score of the shape", pc, diff(lg, k), sub(ln(X), el))
        self.scores("gamma, shape")
        self.h = add(neg(mul(sub(k, ONE), el)), div(self.F.m["mean"][0][1], th), fn("lgam", k), mul(k, ln(th)))

    def jacobi(self, f, al, be, a, s, A, B):
        """f: the density with the symbols al, be for the shapes A, B"""
        z = div(sub(X, a), s)
        pc = [lt(ZERO, al), lt(ZERO, be), lt(ZERO, z), lt(z, ONE), lt(ZERO, s)]
        lg = add(mul(sub(al, ONE), ln(z)), mul(sub(be, ONE), ln(sub(ONE, z))), neg(specs.lnbeta(al, be)), neg(ln(s)))
        self.log(f, pc, neg(lg))
        psi = lambda t: fn("digam", t)
        e0, e1 = sub(psi(al), psi(add(al, be))), sub(psi(be), psi(add(al, be)))
        self.eq("score of the first shape", pc, diff(lg, al), sub(ln(z), e0))
        self.eq("score of the second shape", pc, diff(lg, be), sub(ln(sub(ONE, z)), e1))
        self.scores("beta, shapes")
        h = add(neg(mul(sub(al, ONE), e0)), neg(mul(sub(be, ONE), e1)), specs.lnbeta(al, be), ln(s))
        self.h = subst(h, {al: A, be: B})

    def beta(self):
        al, be, a, b = self.F.params
        self.jacobi(self.last(), al, be, a, sub(b, a), al, be)

    def pert(self):
        B = FAM["Beta"]
        al, be, a, b = B.params
        A, L, C = self.F.params
        d = self.F.derived
        f = subst(B.m["density"][-1][1], {a: A, b: C})
        self.eq("density is that of beta with the derived shapes", self.pre + [lt(A, X), lt(X, C)], self.last(), subst(f, {al: d["pal"], be: d["pbe"]}))
        self.jacobi(f, al, be, A, sub(C, A), d["pal"], d["pbe"])

    def triangular(self):
        F = self.F
        a, b, c = F.params
        d = F.m["density"]
        v = var("u#")
        w = sub(b, a)
        B = FAM["Beta"]
        al, be, a_, b_ = B.params
        tri = subst(B.m["density"][-1][1], {al: TWO, be: ONE, a_: ZERO, b_: ONE, X: v})
        for f, end, pc in ((d[2][1], a, [lt(a, c), le(c, b)]), (d[4][1], b, [lt(c, b), le(a, c)])):
            side = sub(c, end)
            x = add(end, mul(side, v))
            pc = pc + [lt(ZERO, v), lt(v, ONE)]
            g = subst(f, {X: x})
            self.eq("from %s: a share of the beta density with shapes 2 and 1" % show(end), pc, mul(g, side),
                    mul(div(side, w), tri))
            self.eq("from %s: minus the logarithm of the density" % show(end), pc, neg(ln(g)), neg(add(ln(div(TWO, w)), ln(v))))
        self.scores("beta, shapes 2 and 1")
        e = sub(fn("digam", TWO), fn("digam", const(3)))
        self.h = neg(add(ln(div(TWO, w)), e))

    def cauchy(self):
        x0, ga = self.F.params
        z = div(sub(X, x0), ga)
        self.log(self.last(), self.pre, add(ln(mul(PI, ga)), ln(add(ONE, sq(z)))))
        self.p.trust("the mean of ln(1 + Z^2) is 2 ln 2 for standard Cauchy Z (integral of ln cos)")
        self.h = add(ln(mul(PI, ga)), mul(TWO, ln(TWO)))

    def bernoulli(self):
        ms = [v for g, v in self.F.m["mass"]]
        self.h = neg(add(mul(ms[0], ln(ms[0])), mul(ms[1], ln(ms[1]))))

    def binomial(self):
        F = self.F
        k = specs.k_
        self.eq("logarithm of the mass", self.pre + [le(IZERO, k), le(k, specs.n_)], ln(F.m["mass"][-1][1]), F.lnm(i2r(k)))

    def categorical(self):
        pass                # the contract is the definition


def entropies(p):
    for F in FAM.values():
        if "entropy" in F.m:
            try:
                Ent(p, F)
            except (NoLemma, prove3.canon.CanonError, RecursionError, ZeroDivisionError) as e:
                p.ob("lemma %s: entropy" % F.name, ("open", ""), F, None, (), "%s: %s" % (type(e).__name__, str(e)[:200]))


def C11(p):
    prove6.C11(p)
    entropies(p)


def C02(p):
    """the contracts of the CDFs are derived from those of the densities and masses"""
    for F in FAM.values():
        prove3.contracts(p, F, "distribution")
        if F.discrete:
            prove3.discrete(p, F)
        else:
            prove3.ftc(p, F)
            prove3.joins(p, F)
        prove3.tails(p, F)
    prove3.categorical_sums(p)
