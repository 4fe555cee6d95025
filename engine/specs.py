"""The contracts: for every family, the preconditions of its constructors and the
postcondition of every public operation, as spec functions (terms) of the
constructor's arguments.  They are written from the mathematics of the
distributions, not from the code.

A postcondition of a scalar operation is a list of cases (guard, value); value is
a term, or one of the tags PINF/NINF, or ANY (unconstrained).  Guards are
evaluated in order (first match)."""
from fractions import Fraction as Q
from term import *

PINF, NINF, ANY = "+inf", "-inf", "any"
HALF = const(Q(1, 2))
E = fn("exp", ONE)
INF_TAGS = (PINF, NINF)


def ln(x):
    return fn("ln", x)


def exp(x):
    return fn("exp", x)


def sq(x):
    return power(x, 2)


def lnbeta(a, b):
    return sub(add(fn("lgam", a), fn("lgam", b)), fn("lgam", add(a, b)))


class Family:
    def __init__(self, name, ctor, params, pre, base=None):
        self.name, self.ctor, self.params, self.pre = name, ctor, params, pre
        self.fam = name.split(".")[0]
        self.m = {}              # method -> list of (guard, value) [result scalar]
        self.modes = None        # list of (guard, [values])
        self.acc = {}            # accessor -> term
        self.support = None      # (lo, hi) terms or tags; samples lie in [lo, hi]
        self.discrete = False
        self.x = None
        self.loc = None          # (location term, scale term)
        self.median_tol = None   # (guard, tolerance on the CDF)
        self.sort = {}
        self.mpre = {}           # method -> extra preconditions (where the quantity is defined)


FAM = {}
x_ = var("x")
p_ = var("p#")                   # argument of the quantile function
k_ = var("x", "I")               # argument of a mass function


def T1(v):
    return [(TRUE, v)]


def sign_pre(*ts):
    return [lt(ZERO, t) for t in ts]


def _std(f, density=None, cdf=None, inv=None, **kw):
    if density is not None:
        f.m["density"] = density
    if cdf is not None:
        f.m["distribution"] = cdf
    if inv is not None:
        f.m["inverse"] = inv
    for k, v in kw.items():
        f.m[k] = v if isinstance(v, list) else T1(v)
    if "variance" in f.m:
        f.m["deviation"] = [(g, sqrt(v) if isinstance(v, T) else v) for g, v in f.m["variance"]]
    FAM[f.name] = f
    return f


# ------------------------------------------------------------------ Bernoulli
def bernoulli(name, ctor, par, p, q):
    f = Family(name, ctor, [par], [lt(ZERO, par), lt(par, ONE)])
    f.discrete = True
    f.acc = {"p": p, "q": q}
    f.m["mass"] = [(eq(k_, IZERO), q), (eq(k_, IONE), p), (TRUE, ZERO)]
    f.modes = [(lt(p, q), [ZERO]), (eq(p, q), [ZERO, ONE]), (TRUE, [ONE])]
    f.support = (ZERO, ONE)
    return _std(f, None, [(lt(x_, ZERO), ZERO), (lt(x_, ONE), q), (TRUE, ONE)],
                [(le(p_, q), ZERO), (TRUE, ONE)],
                mean=p, variance=mul(p, q), skewness=div(sub(q, p), sqrt(mul(p, q))),
                kurtosis=div(sub(ONE, mul(const(6), p, q)), mul(p, q)),
                entropy=neg(add(mul(p, ln(p)), mul(q, ln(q)))),
                median=[(lt(p, q), ZERO), (eq(p, q), HALF), (TRUE, ONE)])


P, QQ = var("p"), var("q")
bernoulli("Bernoulli", "new", P, P, sub(ONE, P))
bernoulli("Bernoulli.with_failure", "with_failure", QQ, sub(ONE, QQ), QQ)

# ------------------------------------------------------------------ Beta
def beta_like(f, al, be, a, b):
    s = sub(b, a)
    z = div(sub(x_, a), s)
    sm = add(al, be)
    lb = lnbeta(al, be)
    body = div(exp(sub(add(mul(sub(al, ONE), ln(z)), mul(sub(be, ONE), ln(sub(ONE, z)))), lb)), s)
    at0 = lambda al, be: [(conj(eq(x_, a), lt(al, ONE)), PINF), (conj(eq(x_, a), eq(al, ONE)), div(be, s)),
                          (conj(eq(x_, a), lt(ONE, al)), ZERO)]
    dens = [(lt(x_, a), ZERO), (lt(b, x_), ZERO)] + at0(al, be) + \
        [(conj(eq(x_, b), lt(be, ONE)), PINF), (conj(eq(x_, b), eq(be, ONE)), div(al, s)),
         (conj(eq(x_, b), lt(ONE, be)), ZERO), (TRUE, body)]
    psi = lambda t: fn("digam", t)
    f.support = (a, b)
    f.loc = (a, s)
    d = sub(al, be)
    pr = mul(al, be)
    _std(f, dens, [(le(x_, a), ZERO), (le(b, x_), ONE), (TRUE, fn("incb", z, al, be))],
         [(TRUE, add(a, mul(s, fn("iincb", p_, al, be))))],
         mean=add(a, mul(s, div(al, sm))),
         variance=div(mul(sq(s), al, be), mul(sq(sm), add(sm, ONE))),
         skewness=div(mul(const(2), sub(be, al), sqrt(add(sm, ONE))), mul(add(sm, const(2)), sqrt(pr))),
         kurtosis=div(mul(const(6), sub(mul(sq(d), add(sm, ONE)), mul(pr, add(sm, const(2))))),
                      mul(pr, add(sm, const(2)), add(sm, const(3)))),
         entropy=add(ln(s), lb, neg(mul(sub(al, ONE), psi(al))), neg(mul(sub(be, ONE), psi(be))),
                     mul(sub(sm, const(2)), psi(sm))),
         median=[(eq(al, be), div(add(a, b), const(2))), (TRUE, add(a, mul(s, fn("iincb", HALF, al, be))))])


al, be, a, b, c3 = var("alpha"), var("beta"), var("a"), var("b"), var("c")
f = Family("Beta", "new", [al, be, a, b], [lt(ZERO, al), lt(ZERO, be), lt(a, b)])
f.acc = {"alpha": al, "beta": be, "a": a, "b": b}
mode = add(a, mul(sub(b, a), div(sub(al, ONE), sub(add(al, be), const(2)))))
f.modes = [(conj(eq(al, ONE), eq(be, ONE)), []),
           (conj(lt(al, ONE), lt(be, ONE)), [a, b]),
           (conj(lt(ONE, al), lt(ONE, be)), [mode]),
           (lt(al, be), [a]), (TRUE, [b])]
# the closed-form median for shapes above one is an approximation by design
f.median_tol = (conj(lt(ONE, al), lt(ONE, be), ne(al, be)), Q(3, 200))
beta_like(f, al, be, a, b)

f = Family("Pert", "new", [a, b, c3], [lt(a, b), lt(b, c3)])
w = sub(c3, a)
pal = div(sub(add(mul(const(4), b), c3), mul(const(5), a)), w)
pbe = div(sub(sub(mul(const(5), c3), a), mul(const(4), b)), w)
f.acc = {"a": a, "b": b, "c": c3, "alpha": pal, "beta": pbe}
f.modes = T1([b])
beta_like(f, pal, pbe, a, c3)
f.m["median"] = T1(add(a, mul(w, fn("iincb", HALF, pal, pbe))))
f.m["mean"] = T1(div(add(a, mul(const(4), b), c3), const(6)))
f.derived = {"pal": pal, "pbe": pbe}

# ------------------------------------------------------------------ Binomial
n_ = var("n", "I")


def binomial(name, ctor, par, p, q):
    f = Family(name, ctor, [n_, par], [le(IZERO, n_), lt(ZERO, par), lt(par, ONE)])
    f.discrete = True
    n = i2r(n_)
    f.acc = {"n": n, "p": p, "q": q}
    k = i2r(k_)
    lnm = lambda k: add(fn("lgam", add(n, ONE)), neg(fn("lgam", add(k, ONE))), neg(fn("lgam", add(sub(n, k), ONE))),
                        mul(k, ln(p)), mul(sub(n, k), ln(q)))
    f.lnm = lnm
    f.m["mass"] = [(lt(n_, k_), ZERO), (TRUE, exp(lnm(k)))]
    fl = floor_(x_)
    cdf = fn("incb", q, sub(n, fl), add(fl, ONE))
    npq = mul(n, p, q)
    np1 = mul(add(n, ONE), p)
    f.p, f.q = p, q
    f.support = (ZERO, n)
    jv = var("j", "I")
    ent = neg(sum_(jv, IZERO, add(n_, IONE), mul(exp(lnm(i2r(jv))), lnm(i2r(jv)))))
    f.mpre = {"skewness": [le(IONE, n_)], "kurtosis": [le(IONE, n_)]}
    f.modes = [(eq(np1, floor_(np1)), [sub(np1, ONE), np1]), (TRUE, [floor_(np1)])]
    return _std(f, None, [(lt(x_, ZERO), ZERO), (le(n, x_), ONE), (TRUE, cdf)],
                None, mean=mul(n, p), variance=npq,
                skewness=div(sub(q, p), sqrt(npq)),
                kurtosis=div(sub(ONE, mul(const(6), p, q)), npq),
                entropy=[(TRUE, ent)])


binomial("Binomial", "new", P, P, sub(ONE, P))
binomial("Binomial.with_failure", "with_failure", QQ, sub(ONE, QQ), QQ)

# ------------------------------------------------------------------ Categorical
pk, kk = var("P", "A"), var("k", "I")
j_ = var("j", "I")
sa = var("S", "A")               # ghost: the partial sums, S[j] = P[0] + ... + P[j]


def S_(i):
    return sum_(j_, IZERO, i, sel(pk, j_))


f = Family("Categorical", "new", [pk], [])
f.discrete = True
f.support = (ZERO, sub(i2r(kk), ONE))
f.acc = {"k": i2r(kk)}
mu = sum_(j_, IZERO, kk, mul(i2r(j_), sel(pk, j_)))
cm = lambda e: sum_(j_, IZERO, kk, mul(power(sub(i2r(j_), mu), e), sel(pk, j_)))
f.m["mass"] = [(lt(k_, kk), sel(pk, k_))]
f.mpre = {"skewness": [lt(ZERO, cm(2))], "kurtosis": [lt(ZERO, cm(2))]}
_std(f, None, [(lt(x_, ZERO), ZERO), (le(i2r(kk), x_), ONE), (TRUE, sel(sa, r2i(x_)))],
     mean=mu, variance=cm(2), skewness=div(cm(3), power(cm(2), Q(3, 2))),
     kurtosis=sub(div(cm(4), sq(cm(2))), const(3)),
     entropy=neg(sum_(j_, IZERO, kk, ite(lt(ZERO, sel(pk, j_)), mul(sel(pk, j_), ln(sel(pk, j_))), ZERO))))

# ------------------------------------------------------------------ location-scale and positive families
def locscale(name, ctor, params, loc, sc, pre, density, cdf, inv, **kw):
    f = Family(name, ctor, params, pre)
    z = div(sub(x_, loc), sc)
    f.loc = (loc, sc)
    f.support = kw.pop("support", (NINF, PINF))
    f.acc = kw.pop("acc")
    f.modes = kw.pop("modes", T1([loc]))
    return _std(f, density(z) if callable(density) else density, cdf(z), inv, **kw)


x0, ga = var("x_0"), var("gamma")
locscale("Cauchy", "new", [x0, ga], x0, ga, sign_pre(ga),
         lambda z: T1(div(ONE, mul(PI, ga, add(ONE, sq(z))))),
         lambda z: T1(add(HALF, div(fn("atan", z), PI))),
         [(eq(p_, ZERO), NINF), (eq(p_, ONE), PINF), (TRUE, add(x0, mul(ga, fn("tan", mul(PI, sub(p_, HALF))))))],
         entropy=ln(mul(const(4), PI, ga)), median=x0, acc={"x_0": x0, "gamma": ga})

lam = var("lambda")
f = Family("Exponential", "new", [lam], sign_pre(lam))
f.acc, f.support, f.modes, f.loc = {"lambda": lam}, (ZERO, PINF), T1([ZERO]), (ZERO, div(ONE, lam))
_std(f, [(lt(x_, ZERO), ZERO), (TRUE, mul(lam, exp(neg(mul(lam, x_)))))],
     [(le(x_, ZERO), ZERO), (TRUE, sub(ONE, exp(neg(mul(lam, x_)))))],
     [(eq(p_, ONE), PINF), (TRUE, neg(div(ln(sub(ONE, p_)), lam)))],
     mean=div(ONE, lam), variance=power(lam, -2), skewness=const(2), kurtosis=const(6),
     entropy=sub(ONE, ln(lam)), median=div(ln(const(2)), lam))

kg, th = var("k"), var("theta")
f = Family("Gamma", "new", [kg, th], sign_pre(kg, th))
f.acc, f.support, f.loc = {"k": kg, "theta": th}, (ZERO, PINF), (ZERO, th)
f.modes = [(le(ONE, kg), [mul(sub(kg, ONE), th)]), (TRUE, [])]
_std(f, [(lt(x_, ZERO), ZERO), (conj(eq(x_, ZERO), lt(kg, ONE)), PINF), (conj(eq(x_, ZERO), eq(kg, ONE)), div(ONE, th)),
         (eq(x_, ZERO), ZERO),
         (TRUE, exp(sub(sub(mul(sub(kg, ONE), ln(x_)), div(x_, th)), add(fn("lgam", kg), mul(kg, ln(th))))))],
     [(le(x_, ZERO), ZERO), (TRUE, fn("incg", div(x_, th), kg))], None,
     mean=mul(kg, th), variance=mul(kg, sq(th)), skewness=div(const(2), sqrt(kg)), kurtosis=div(const(6), kg),
     entropy=add(kg, ln(th), fn("lgam", kg), mul(sub(ONE, kg), fn("digam", kg))))

mu_, sg = var("mu"), var("sigma")


def gaussian(name, ctor, params, loc, sc, pre):
    return locscale(name, ctor, params, loc, sc, pre,
         lambda z: T1(div(exp(mul(const(Q(-1, 2)), sq(z))), mul(sc, sqrt(mul(const(2), PI))))),
         lambda z: T1(mul(HALF, add(ONE, fn("erf", div(z, sqrt(const(2))))))),
         [(eq(p_, ZERO), NINF), (eq(p_, ONE), PINF), (TRUE, add(loc, mul(sc, fn("phiinv", p_))))],
         mean=loc, variance=sq(sc), skewness=ZERO, kurtosis=ZERO, median=loc,
         entropy=mul(HALF, ln(mul(const(2), PI, E, sq(sc)))), acc={"mu": loc, "sigma": sc})


gaussian("Gaussian", "new", [mu_, sg], mu_, sg, sign_pre(sg))
gaussian("Gaussian.default", "default", [], ZERO, ONE, [])

bl = var("b")
locscale("Laplace", "new", [mu_, bl], mu_, bl, sign_pre(bl),
         lambda z: [(lt(x_, mu_), div(exp(z), mul(const(2), bl))), (TRUE, div(exp(neg(z)), mul(const(2), bl)))],
         lambda z: [(le(x_, mu_), mul(HALF, exp(z))), (TRUE, sub(ONE, mul(HALF, exp(neg(z)))))],
         [(eq(p_, ZERO), NINF), (eq(p_, ONE), PINF), (le(p_, HALF), add(mu_, mul(bl, ln(mul(const(2), p_))))),
          (TRUE, sub(mu_, mul(bl, ln(mul(const(2), sub(ONE, p_))))))],
         mean=mu_, variance=mul(const(2), sq(bl)), skewness=ZERO, kurtosis=const(3), median=mu_,
         entropy=add(ONE, ln(mul(const(2), bl))), acc={"mu": mu_, "b": bl})

s_ = var("s")


def logistic(name, ctor, params, loc, sc, pre):
    return locscale(name, ctor, params, loc, sc, pre,
         lambda z: T1(div(exp(neg(z)), mul(sc, sq(add(ONE, exp(neg(z))))))),
         lambda z: T1(div(ONE, add(ONE, exp(neg(z))))),
         [(eq(p_, ZERO), NINF), (eq(p_, ONE), PINF), (TRUE, add(loc, mul(sc, ln(div(p_, sub(ONE, p_))))))],
         mean=loc, variance=div(mul(sq(PI), sq(sc)), const(3)), skewness=ZERO, kurtosis=const(Q(6, 5)), median=loc,
         entropy=add(ln(sc), const(2)), acc={"mu": loc, "s": sc})


logistic("Logistic", "new", [mu_, s_], mu_, s_, sign_pre(s_))
logistic("Logistic.default", "default", [], ZERO, ONE, [])


def lognormal(name, ctor, params, m, s, pre):
    f = Family(name, ctor, params, pre)
    f.acc, f.support = {"mu": m, "sigma": s}, (ZERO, PINF)
    f.modes = T1([exp(sub(m, sq(s)))])
    z = div(sub(ln(x_), m), s)
    es = exp(sq(s))
    return _std(f, [(le(x_, ZERO), ZERO),
                    (TRUE, div(exp(mul(const(Q(-1, 2)), sq(z))), mul(x_, s, sqrt(mul(const(2), PI)))))],
                [(le(x_, ZERO), ZERO), (TRUE, mul(HALF, add(ONE, fn("erf", div(z, sqrt(const(2)))))))],
                [(eq(p_, ZERO), ZERO), (eq(p_, ONE), PINF), (TRUE, exp(add(m, mul(s, fn("phiinv", p_)))))],
                mean=exp(add(m, div(sq(s), const(2)))), variance=mul(sub(es, ONE), exp(add(mul(const(2), m), sq(s)))),
                skewness=mul(add(es, const(2)), sqrt(sub(es, ONE))),
                kurtosis=add(power(es, 4), mul(const(2), power(es, 3)), mul(const(3), power(es, 2)), const(-6)),
                entropy=add(m, HALF, ln(mul(s, sqrt(mul(const(2), PI))))), median=exp(m))


lognormal("Lognormal", "new", [mu_, sg], mu_, sg, sign_pre(sg))
lognormal("Lognormal.default", "default", [], ZERO, ONE, [])

f = Family("Triangular", "new", [a, b, c3], [lt(a, b), le(a, c3), le(c3, b)])
f.acc, f.support, f.modes, f.loc = {"a": a, "b": b, "c": c3}, (a, b), T1([c3]), (a, sub(b, a))
D = add(sq(a), sq(b), sq(c3), neg(mul(a, b)), neg(mul(a, c3)), neg(mul(b, c3)))
ab, ac, bc = sub(b, a), sub(c3, a), sub(b, c3)
_std(f, [(lt(x_, a), ZERO), (lt(b, x_), ZERO), (lt(x_, c3), div(mul(const(2), sub(x_, a)), mul(ab, ac))),
         (eq(x_, c3), div(const(2), ab)), (TRUE, div(mul(const(2), sub(b, x_)), mul(ab, bc)))],
     [(le(x_, a), ZERO), (le(b, x_), ONE), (le(x_, c3), div(sq(sub(x_, a)), mul(ab, ac))),
      (TRUE, sub(ONE, div(sq(sub(b, x_)), mul(ab, bc))))],
     [(eq(p_, ZERO), a), (eq(p_, ONE), b), (le(p_, div(ac, ab)), add(a, sqrt(mul(p_, ab, ac)))),
      (TRUE, sub(b, sqrt(mul(sub(ONE, p_), ab, bc))))],
     mean=div(add(a, b, c3), const(3)), variance=div(D, const(18)),
     skewness=div(mul(sqrt(const(2)), add(a, b, mul(const(-2), c3)), sub(sub(mul(const(2), a), b), c3),
                      add(a, mul(const(-2), b), c3)), mul(const(5), power(D, Q(3, 2)))),
     kurtosis=const(Q(-3, 5)), entropy=add(HALF, ln(div(ab, const(2)))),
     median=[(le(div(add(a, b), const(2)), c3), add(a, sqrt(div(mul(ab, ac), const(2))))),
             (TRUE, sub(b, sqrt(div(mul(ab, bc), const(2)))))])


def uniform(name, ctor, params, a, b, pre):
    f = Family(name, ctor, params, pre)
    f.acc, f.support, f.loc = {"a": a, "b": b}, (a, b), (a, sub(b, a))
    w = sub(b, a)
    return _std(f, [(lt(x_, a), ZERO), (lt(b, x_), ZERO), (TRUE, div(ONE, w))],
                [(le(x_, a), ZERO), (le(b, x_), ONE), (TRUE, div(sub(x_, a), w))],
                T1(add(a, mul(w, p_))),
                mean=div(add(a, b), const(2)), variance=div(sq(w), const(12)), skewness=ZERO, kurtosis=const(Q(-6, 5)),
                entropy=ln(w), median=div(add(a, b), const(2)))


uniform("Uniform", "new", [a, b], a, b, [lt(a, b)])
uniform("Uniform.default", "default", [], ZERO, ONE, [])

SCALARS0 = ["entropy", "kurtosis", "mean", "median", "skewness", "variance", "deviation"]
