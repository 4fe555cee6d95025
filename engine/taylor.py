"""Interval Taylor arithmetic: enclosures of functions of one variable, in integers scaled by 2^P.

A jet is a list of intervals enclosing the normalised Taylor coefficients at every point of an interval.  Directed rounding is
explicit in `fl` and `ce`; elementary functions at end points come from mpmath with 40 digits to spare."""
from fractions import Fraction as Q
from math import isqrt
import mpmath as mp

P = 170
U = 1 << P


class Wide(Exception):
    """the enclosure is too wide for the operation"""


def shr_ce(x, k):
    return -((-x) >> k)


def iv(q):
    """the enclosure of a rational"""
    q = Q(q)
    n = q.numerator << P
    return (n // q.denominator, -((-n) // q.denominator))


def ivs(a, b):
    return (iv(a)[0], iv(b)[1])


def add(a, b):
    return (a[0] + b[0], a[1] + b[1])


def sub(a, b):
    return (a[0] - b[1], a[1] - b[0])


def neg(a):
    return (-a[1], -a[0])


def mul(a, b):
    if a is b:
        lo, hi = a[0] * a[0], a[1] * a[1]
        if lo > hi:
            lo, hi = hi, lo
        if a[0] <= 0 <= a[1]:
            lo = 0
        return (lo >> P, shr_ce(hi, P))
    x = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return (min(x) >> P, shr_ce(max(x), P))


def div(a, b):
    if b[0] <= 0 <= b[1]:
        raise Wide("division")
    lo = min((x << P) // y for x in a for y in b)
    hi = max(-((-x << P) // y) for x in a for y in b)
    return (lo, hi)


def hull(*a):
    return (min(x[0] for x in a), max(x[1] for x in a))


def mag(a):
    return max(abs(a[0]), abs(a[1]))


def to_mp(n):
    return mp.ldexp(mp.mpf(n), -P)


def from_mp(f, a, inc=True):
    """the enclosure of a monotone function"""
    with mp.workprec(2 * P + 60):
        v = [int(mp.floor(mp.ldexp(f(to_mp(x)), P))) for x in a]
    if not inc:
        v.reverse()
    s = (max(abs(v[0]), abs(v[1])) >> 200) + 4
    return (v[0] - s, v[1] + s)


def i_exp(a):
    return from_mp(mp.exp, a)


def i_ln(a):
    if a[0] <= 0:
        raise Wide("logarithm")
    return from_mp(mp.log, a)


def i_sqrt(a):
    if a[0] < 0:
        raise Wide("square root")
    lo, hi = isqrt(a[0] << P), isqrt(a[1] << P) + 1
    return (lo, hi)


# ------------------------------------------------------------------ jets
ZERO_I = (0, 0)


def jconst(q, n):
    return [iv(q)] + [ZERO_I] * n


def jadd(a, b):
    return [add(x, y) for x, y in zip(a, b)]


def jneg(a):
    return [neg(x) for x in a]


def conv(a, b, k):
    s0 = s1 = 0
    for j in range(k + 1):
        x, y = a[j], b[k - j]
        if x == ZERO_I or y == ZERO_I:
            continue
        if x[0] >= 0 and y[0] >= 0:
            s0 += x[0] * y[0]
            s1 += x[1] * y[1]
            continue
        z = (x[0] * y[0], x[0] * y[1], x[1] * y[0], x[1] * y[1])
        s0 += min(z)
        s1 += max(z)
    return (s0 >> P, shr_ce(s1, P))


def jmul(a, b):
    return [conv(a, b, k) for k in range(len(a))]


def jdiv(a, b):
    n, q = len(a), []
    for k in range(n):
        s0 = s1 = 0
        for j in range(k):
            z = mul(q[j], b[k - j]) if b[k - j] != ZERO_I else ZERO_I
            s0, s1 = s0 + z[0], s1 + z[1]
        q.append(div(sub(a[k], (s0, s1)), b[0]))
    return q


def scale(a, q):
    return mul(a, iv(q))


def jexp(a):
    e = [i_exp(a[0])]
    for k in range(1, len(a)):
        s = ZERO_I
        for j in range(1, k + 1):
            if a[j] != ZERO_I:
                s = add(s, mul((a[j][0] * j, a[j][1] * j), e[k - j]))
        e.append(scale(s, Q(1, k)))
    return e


def jln(a):
    r = [i_ln(a[0])]
    for k in range(1, len(a)):
        s = ZERO_I
        for j in range(1, k):
            if a[k - j] != ZERO_I:
                s = add(s, mul((r[j][0] * j, r[j][1] * j), a[k - j]))
        r.append(div(sub(a[k], scale(s, Q(1, k))), a[0]))
    return r


def jsqrt(a):
    r = [i_sqrt(a[0])]
    if len(a) > 1 and r[0][0] <= 0:
        raise Wide("square root at zero")
    d = (2 * r[0][0], 2 * r[0][1])
    for k in range(1, len(a)):
        s = ZERO_I
        for j in range(1, k):
            s = add(s, mul(r[j], r[k - j]))
        r.append(div(sub(a[k], s), d))
    return r


def jpow(a, q):
    q = Q(q)
    if q < 0:
        return jdiv(jconst(1, len(a) - 1), jpow(a, -q))
    if q.denominator == 2:
        s = jsqrt(a)
        return s if q == Q(1, 2) else jmul(s, jpow(a, q - Q(1, 2)))
    if q.denominator != 1:
        return jexp([scale(x, q) for x in jln(a)])
    k = int(q)
    if k > 64:
        raise Wide("power")
    r = None
    while k:
        if k & 1:
            r = a if r is None else jmul(r, a)
        k >>= 1
        if k:
            a = jmul(a, a)
    return r if r is not None else jconst(1, len(a) - 1)


def ln_tail(x):
    return mp.log(mp.erfc(x / mp.sqrt(2)) / 2)


def mills(x):
    """the density over the tail; increasing"""
    return mp.exp(-x * x / 2) * 2 / (mp.sqrt(2 * mp.pi) * mp.erfc(x / mp.sqrt(2)))


def j_ln_tail(x):
    """ln (1 - Phi(x)): its derivative is -M, and M' = M (M - x)"""
    n = len(x)
    y, m = [from_mp(ln_tail, x[0], False)], [from_mp(mills, x[0])]
    w = []
    for k in range(1, n):
        d = [sub(m[j], x[j]) for j in range(k)]
        w.append(conv(m, d, k - 1))
        s, t = ZERO_I, ZERO_I
        for j in range(k):
            c = x[k - j]
            if c != ZERO_I:
                c = (c[0] * (k - j), c[1] * (k - j))
                s = add(s, mul(w[j], c))
                t = add(t, mul(m[j], c))
        m.append(scale(s, Q(1, k)))
        y.append(neg(scale(t, Q(1, k))))
    return y


def taylor_range(mid, wide, h):
    """the range over |t| <= h, given the jet at the middle and the one over the whole interval"""
    n = len(mid) - 1
    hq = iv(h)
    s, p = ZERO_I, iv(1)
    for k in range(n + 1):
        c = mid[k] if k < n else wide[n]
        z = mul(c, p)
        if k == 0:
            s = add(s, z)
        elif k % 2:
            m = mag(z)
            s = add(s, (-m, m))
        else:
            s = add(s, (min(z[0], 0), max(z[1], 0)))
        p = mul(p, hq)
    return s


def derivative(j):
    return [(c[0] * k, c[1] * k) for k, c in enumerate(j)][1:]
