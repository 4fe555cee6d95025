"""Numeric evaluation of the contracts (arbitrary precision) and comparison with
the real code."""
import math
import mpmath as mp
from fractions import Fraction as Q
import specs
from specs import FAM, PINF, NINF, ANY
from term import *

mp.mp.dps = 40


def mpf(v):
    return mp.mpf(v)


def env_of(f, params, method=None, arg=None):
    env = {}
    if f.fam == "Categorical":
        env[specs.pk] = [mpf(v) for v in params]
        env[specs.kk] = len(params)
        acc, cs = mpf(0), []
        for v in env[specs.pk]:
            acc += v
            cs.append(acc)
        env[specs.sa] = cs
    else:
        for t, v in zip(f.params, params):
            env[t] = int(v) if t.s == "I" else mpf(v)
    if arg is not None:
        if method == "mass":
            env[specs.k_] = int(arg)
        elif method == "inverse":
            env[specs.p_] = mpf(arg)
        else:
            env[specs.x_] = mpf(arg)
    return env


def cases(cs, env):
    memo = {}
    for g, v in cs:
        if evalmp(g, env, memo):
            return v, memo
    return ANY, memo


# Known finding F2 (locked in by an existing exact-equality test): entry 11 of the
# Stirling-error table of the binomial mass is mistyped.  `adjust` gives the value the
# mistyped entry produces, so that any *other* deviation is still seen.
F2 = mp.mpf("7.757367548795184079e-03") - (mp.loggamma(12) - mp.log(mp.sqrt(22 * mp.pi)) - 11 * mp.log(11) + 11)


def f2_factor(n, k):
    if not 0 < k < n:
        return mpf(1)
    return mp.exp(F2 * ((n == 11) - (k == 11) - (n - k == 11)))


def adjust(fam, method, params, arg):
    """value under the known findings, or None when none concerns the request"""
    f = FAM[fam]
    if f.fam != "Binomial":
        return None
    n = int(params[0])
    if method == "mass" and n >= 11:
        c = f2_factor(n, int(arg))
        return None if c == 1 else expected(fam, method, params, arg) * c
    if method == "entropy" and 11 <= n <= 40000:
        return binom_entropy(f, params, True)
    return None


def expected(fam, method, params, arg=None):
    """mpf, or +-inf, or ANY"""
    f = FAM[fam]
    if arg is not None and isinstance(arg, float) and math.isinf(arg):
        return limit(f, method, params, arg)
    env = env_of(f, params, method, arg)
    if method == "entropy" and f.fam == "Binomial":
        return binom_entropy(f, params)
    v, memo = cases(f.m[method], env)
    if v == PINF:
        return mp.inf
    if v == NINF:
        return -mp.inf
    if v == ANY:
        return ANY
    return evalmp(v, env, memo)


def limit(f, method, params, arg):
    if method == "distribution":
        return mpf(1 if arg > 0 else 0)
    if method == "density":
        return mpf(0)
    return ANY


def modes(fam, params):
    f = FAM[fam]
    env = env_of(f, params)
    v, memo = cases(f.modes, env)
    return [evalmp(t, env, memo) for t in v]


def binom_entropy(f, params, f2=False):
    n = int(params[0])
    env = env_of(f, params)
    p, q = evalmp(f.p, env), evalmp(f.q, env)
    if n <= 400:
        lp, lq = mp.log(p), mp.log(q)
        s = mpf(0)
        l = n * lq
        for k in range(n + 1):
            c = f2_factor(n, k) if f2 else 1
            s -= c * mp.exp(l) * (l + mp.log(c))
            if k < n:
                l += mp.log(mpf(n - k) / (k + 1)) + lp - lq
        return s
    import numpy as np
    from scipy.special import gammaln
    m, sd = float(n * p), float(mp.sqrt(n * p * q))
    lo, hi = max(0, int(m - 40 * sd - 200)), min(n, int(m + 40 * sd + 200))
    k = np.arange(lo, hi + 1, dtype=float)
    # Loader-style log mass relative to the mode keeps absolute accuracy
    k0 = min(n, max(0, int(m)))
    l0 = float(mp.loggamma(n + 1) - mp.loggamma(k0 + 1) - mp.loggamma(n - k0 + 1) + k0 * mp.log(p) + (n - k0) * mp.log(q))
    lp = float(mp.log(p) - mp.log(q))
    inc = np.log((n - k[:-1]) / (k[:-1] + 1)) + lp
    l = np.concatenate([[0.0], np.cumsum(inc)])
    l = l - l[k0 - lo] + l0
    if f2:
        for kk in (11, n - 11):
            if lo <= kk <= hi:
                l[kk - lo] -= float(F2)
    return mpf(float(-np.sum(np.exp(l) * l)))


def pmf(f, params, k):
    return expected(f.name, "mass", params, k)


def cdf(fam, params, x):
    v = expected(fam, "distribution", params, x)
    if fam in ("Exponential", "Gaussian", "Gaussian.default", "Lognormal", "Lognormal.default", "Cauchy") and v < mpf("1e-20"):
        with mp.workdps(400):
            v = expected(fam, "distribution", params, x)
        v = +v
    return v


def cdf_left(fam, params, x):
    """P(X < x)"""
    f = FAM[fam]
    if not f.discrete:
        return cdf(fam, params, x)
    y = math.ceil(x) - 1
    return cdf(fam, params, y) if y >= 0 else mpf(0)


def rel(a, b):
    if a == b:
        return mpf(0)
    if mp.isinf(a) or mp.isinf(b) or mp.isnan(a):
        return mp.inf
    return abs(a - b) / max(abs(a), abs(b))


TINY = mpf("2.3e-308")
HUGE = mpf("1.7976931348623157e308")


def perturb(fam, method, params, arg, base, delta):
    """first-order sensitivity of the contract value to relative changes of the inputs"""
    tot = mpf(0)
    f = FAM[fam]
    idx = [i for i in range(len(params)) if not (f.fam == "Binomial" and i == 0)]
    if f.fam == "Categorical":
        idx = []
    jobs = [(i, None) for i in idx] + ([(None, 1)] if arg is not None and method != "mass" else [])
    for i, _ in jobs:
        best = mpf(0)
        for s in (1, -1):
            ps, ar = list(params), arg
            if i is None:
                # x - a is rounded relative to the larger of the two, not to x alone
                mag = location_scale(fam, params) if method in ("density", "distribution") else 0
                ar = mpf(arg) + s * delta * max(abs(mpf(arg)), mag)
            else:
                ps[i] = mpf(ps[i]) * (1 + s * delta)
            try:
                v = expected2(fam, method, ps, ar)
            except Exception:  # noqa
                continue
            if v is ANY or mp.isinf(v):
                continue
            best = max(best, abs(v - base))
        tot += best
    return tot


def location_scale(fam, ps):
    """magnitude of the location parameters of a family (rng_mags of rac.py)"""
    f = FAM[fam]
    if f.discrete or fam.endswith(".default"):
        return 0
    if f.fam in ("Pert", "Triangular", "Uniform"):
        return max(abs(v) for v in ps)
    if f.fam == "Beta":
        return max(abs(ps[2]), abs(ps[3]))
    if f.fam in ("Cauchy", "Gaussian", "Laplace", "Logistic"):
        return abs(ps[0])
    return 0


def expected2(fam, method, ps, ar):
    f = FAM[fam]
    env = env_of(f, ps, method, ar)
    if method == "entropy" and f.fam == "Binomial":
        return binom_entropy(f, ps)
    v, memo = cases(f.m[method], env)
    if v in (PINF, NINF, ANY):
        return ANY
    return evalmp(v, env, memo)


class Tol:
    rtol = 1e-10
    atol = 1e-300
    delta = mpf("3e-15")


def agree(fam, method, params, arg, got, rtol=1e-10, atol=1e-14, delta=None):
    """None if the real result agrees with the contract; otherwise the expected value"""
    e = expected(fam, method, params, arg)
    if e is ANY:
        return None
    if got != got:
        return e
    if mp.isinf(e):
        return None if got == float(e) else e
    g = mpf(got)
    if abs(e) > HUGE * mpf("0.999"):
        return None if got == math.copysign(math.inf, e) or abs(got) > 1e307 else e
    if mp.isinf(g):
        return None if near_end(fam, params, arg, got, e) else e
    err = abs(g - e)
    if err <= rtol * abs(e) + atol:
        return None
    if err <= TINY * 10:
        return None
    k = adjust(fam, method, params, arg)
    if k is not None and abs(g - k) <= rtol * abs(k) + atol:
        KNOWN["F2"] = (fam, method, params, arg, got, e)
        return None
    d = perturb(fam, method, params, arg, e, Tol.delta if delta is None else delta)
    if err <= rtol * abs(e) + atol + 4 * d:
        return None
    if k is not None and abs(g - k) <= rtol * abs(k) + atol + 4 * d:
        KNOWN["F2"] = (fam, method, params, arg, got, e)
        return None
    if near_end(fam, params, arg, got, e):
        return None
    return e


KNOWN = {}


def near_end(fam, params, arg, got, e):
    """within two ulps of an end of the support the value may be the one at the end"""
    f = FAM[fam]
    if arg is None or f.discrete or not isinstance(arg, float):
        return False
    for t in f.support:
        if t in (PINF, NINF):
            continue
        v = evalmp(t, env_of(f, params))
        if 0 < abs(mpf(arg) - v) <= 2 * max(math.ulp(float(v)), math.ulp(arg)) and v != 0:
            x = expected(fam, "density", params, float(v))
            if x is not ANY and (x == got or (not mp.isinf(x) and abs(x - got) <= 1e-9 * abs(x))):
                return True
    return False
