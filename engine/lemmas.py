"""Lemmas over the spec functions: derivatives, one-sided limits and regions of the
case distinctions of specs.py.  They connect the contracts of different operations
(density and CDF, CDF and quantile, ...) and are proved on every run by the same back
ends; they never look at the code."""
from fractions import Fraction as Q
import specs, smt, canon
from canon import Canon
from specs import FAM, PINF, NINF
from term import *

X, P_, K_ = specs.x_, specs.p_, specs.k_
HALF = const(Q(1, 2))


class NoLemma(Exception):
    pass


# ------------------------------------------------------------------ derivative
def diff(t, v):
    """d t / d v, by the textbook rules (special functions by their defining integrals)"""
    if v not in free(t):
        return ZERO
    op, a = t.op, t.a
    if t is v:
        return ONE
    if op == "+":
        return add(*[diff(u, v) for u in a])
    if op == "*":
        out = []
        for i, u in enumerate(a):
            d = diff(u, v)
            if d is not ZERO:
                out.append(mul(d, *[w for j, w in enumerate(a) if j != i]))
        return add(*out)
    if op == "pow":
        return mul(const(a[1]), power(a[0], a[1] - 1), diff(a[0], v))
    d = diff(a[0], v)
    if op == "exp":
        return mul(t, d)
    if op == "ln":
        return div(d, a[0])
    if op == "atan":
        return div(d, add(ONE, power(a[0], 2)))
    if op == "tan":
        return mul(d, add(ONE, power(t, 2)))
    if op == "erf":
        return mul(const(2), power(PI, Q(-1, 2)), fn("exp", neg(power(a[0], 2))), d)
    if op == "lgam":
        return mul(fn("digam", a[0]), d)
    if op == "incb" and not any(v in free(u) for u in a[1:]):
        x, al, be = a
        return mul(fn("exp", add(mul(sub(al, ONE), fn("ln", x)), mul(sub(be, ONE), fn("ln", sub(ONE, x))), neg(specs.lnbeta(al, be)))), d)
    if op == "incg" and not any(v in free(u) for u in a[1:]):
        x, k = a
        return mul(fn("exp", sub(sub(mul(sub(k, ONE), fn("ln", x)), x), fn("lgam", k))), d)
    if op == "phiinv":
        return mul(sqrt(mul(const(2), PI)), fn("exp", mul(HALF, power(t, 2))), d)
    raise NoLemma("derivative of " + op)


# ------------------------------------------------------------------ regions
def has(t, v):
    return v in free(t)


def interior(b, v):
    """the comparisons of a guard made strict where they concern v; None for a single point"""
    out = []
    for g in (b.a if b.op == "and" else (b,)):
        if not has(g, v):
            out.append(g)
        elif g.op == "le":
            out.append(lt(*g.a))
        elif g.op == "lt":
            out.append(g)
        elif g.op == "eq":
            return None
        elif g.op == "not" and g.a[0].op == "eq":
            out.append(g)
        elif g.op == "true":
            pass
        elif g.op == "or" or g.op == "not":
            out.append(g)
        else:
            raise NoLemma("guard " + show(g))
    return out


def weak(gs, v):
    """closure of an open region"""
    out = []
    for g in gs:
        if not has(g, v):
            out.append(g)
        elif g.op == "lt":
            out.append(le(*g.a))
        elif g.op == "not" or g.op == "or":
            pass
        else:
            out.append(g)
    return out


def regions(cs, pre, v):
    """[(facts, open facts or None, value, index)] for the case list: facts hold exactly in the region"""
    out, neg_ = [], []
    for i, (g, val) in enumerate(cs):
        facts = list(pre) + neg_ + [g]
        opn = list(pre)
        for b in neg_ + [g]:
            o = interior(b, v)
            if o is None:
                opn = None
                break
            opn += o
        facts = flat(facts)
        out.append((facts, None if opn is None else flat(opn), val, i))
        neg_ = neg_ + [neg_b(g)]
        if g is TRUE:
            break
    return out


def flat(bs):
    out = []
    for b in bs:
        for g in (b.a if b.op == "and" else (b,)):
            if g is TRUE:
                continue
            if g.op == "not" and g.a[0].op == "and":
                g = disj(*[neg_b(u) for u in g.a[0].a])
            if g not in out:
                out.append(g)
    return out


def sat(pc, budget=800):
    return not any(b is FALSE for b in pc) and smt.check(list(pc), budget) != "unsat"


def breakpoints(cs, v):
    out = []
    for g, _ in cs:
        for b in (g.a if g.op == "and" else (g,)):
            if b.op in ("lt", "le", "eq"):
                for x, y in (b.a, b.a[::-1]):
                    if x is v and not has(y, v) and y not in out:
                        out.append(y)
    return out


# ------------------------------------------------------------------ limits
INF = object()


class Lim:
    """a limit: kind 'fin' with a term (side: +1 / -1 when approached from above / below, 0 unknown) or 'inf' with a sign"""
    __slots__ = ("kind", "t", "s")

    def __init__(self, kind, t=None, s=0):
        self.kind, self.t, self.s = kind, t, s


def limit(t, v, at, c):
    """limit of t when v tends to `at` (a Lim); c: Canon with the facts about parameters"""
    if t is v:
        return at
    if not has(t, v):
        return Lim("fin", t, 0)
    op, a = t.op, t.a
    ls = [limit(u, v, at, c) if isinstance(u, T) else u for u in a]
    if op == "+":
        infs = [l for l in ls if l.kind == "inf"]
        if infs:
            if len({l.s for l in infs}) > 1:
                raise NoLemma("inf - inf")
            return infs[0]
        r = add(*[l.t for l in ls])
        sides = {l.s for l, u in zip(ls, a) if has(u, v)}
        return Lim("fin", r, sides.pop() if len(sides) == 1 else 0)
    if op == "*":
        infs = [l for l in ls if l.kind == "inf"]
        fins = [l for l in ls if l.kind == "fin"]
        if not infs:
            r = mul(*[l.t for l in ls])
            mov = [l for l, u in zip(ls, a) if has(u, v)]
            s = 0
            if len(mov) == 1 and mov[0].s:
                g = c.sign(mul(*[l.t for l, u in zip(ls, a) if not has(u, v)])) if len(ls) > 1 else "+"
                s = mov[0].s if g == "+" else -mov[0].s if g == "-" else 0
            return Lim("fin", r, s)
        s = 1
        for l in infs:
            s *= l.s
        for l in fins:
            g = c.sign(l.t)
            if g not in ("+", "-"):
                raise NoLemma("0 * inf")
            s *= 1 if g == "+" else -1
        return Lim("inf", s=s)
    l = ls[0]
    if op == "pow":
        e = a[1]
        if l.kind == "inf":
            if l.s < 0 and e.denominator != 1:
                raise NoLemma("root of -inf")
            s = 1 if l.s > 0 or e % 2 == 0 else -1
            return Lim("inf", s=s) if e > 0 else Lim("fin", ZERO, s)
        if zero(l.t, c):
            if e > 0:
                return Lim("fin", ZERO, l.s if e.denominator == 1 and e % 2 else 1)
            if l.s == 0 and not (e.denominator == 1 and e % 2 == 0):
                raise NoLemma("1/0")
            return Lim("inf", s=1 if l.s > 0 or e % 2 == 0 else -1)
        if e < 0 and c.sign(l.t) not in ("+", "-"):
            raise NoLemma("denominator")
        return Lim("fin", power(l.t, e), 0)
    if op == "exp":
        if l.kind == "inf":
            return Lim("inf", s=1) if l.s > 0 else Lim("fin", ZERO, 1)
        return Lim("fin", fn("exp", l.t), l.s)
    if op == "ln":
        if l.kind == "inf":
            if l.s < 0:
                raise NoLemma("ln(-inf)")
            return l
        if zero(l.t, c):
            if l.s <= 0:
                raise NoLemma("ln 0")
            return Lim("inf", s=-1)
        if c.sign(l.t) != "+":
            raise NoLemma("ln")
        return Lim("fin", fn("ln", l.t), l.s)
    if op == "erf":
        return Lim("fin", const(l.s), -l.s) if l.kind == "inf" else Lim("fin", fn("erf", l.t), l.s)
    if op == "atan":
        return Lim("fin", mul(const(Q(l.s, 2)), PI), -l.s) if l.kind == "inf" else Lim("fin", fn("atan", l.t), l.s)
    if op == "incg" and not has(a[1], v):
        if l.kind == "inf" and l.s > 0:
            return Lim("fin", ONE, -1)
        if l.kind == "fin":
            return Lim("fin", ZERO, 1) if zero(l.t, c) else Lim("fin", fn("incg", l.t, a[1]), l.s)
    if op == "incb" and not has(a[1], v) and not has(a[2], v) and l.kind == "fin":
        if zero(l.t, c):
            return Lim("fin", ZERO, 1)
        if zero(sub(l.t, ONE), c):
            return Lim("fin", ONE, -1)
        return Lim("fin", fn("incb", l.t, a[1], a[2]), l.s)
    if op == "tan":
        raise NoLemma("tan")
    raise NoLemma("limit of " + op)


def zero(t, c):
    if t is ZERO:
        return True
    try:
        return c.iszero(c.conv(t))
    except (canon.CanonError, RecursionError, ZeroDivisionError):
        return False


def at_zero_from_above():
    return Lim("fin", ZERO, 1)
