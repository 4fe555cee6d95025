"""The quantile of the standard gaussian: the body of `gaussian::inverse` meets the contract its callers use.

The contract idealises the value as the exact quantile.  Here every path of the body is compared with it, for all p from the
smallest positive number on: with y the logarithm of the smaller tail at the value and L the logarithm of min(p, 1 - p),
|y - L| <= 1e-12, the value increases with p, and the operations of the path err by at most 128 u of the value to first order.
The paths' terms are enclosed by interval Taylor expansions (taylor.py) over a cover of (0, 1): in r = sqrt(-ln min(p, 1 - p)) for the tails,
in p between them."""
import time
from fractions import Fraction as Q
import mpmath as mp
import symex
import taylor as J
from symex import Unsupported, Fl
from term import *
from taylor import Wide
from specs import FAM

NAME = "distribution::gaussian::inverse"
P_ = var("p#")
TOL = Q(1, 10 ** 12)
ULPS = 128
R_MAX = Q(2729, 100)          # exp(-R_MAX^2) is below the smallest positive number
ORDER = 16


class Skip(Exception):
    pass


class Region:
    """evaluates terms over p as jets; `lower` and `upper` are the tails min(p, 1 - p) = E = exp(-r^2), `middle` has p itself"""

    def __init__(self, kind, at, n):
        self.kind, self.n, self.memo, self.errs = kind, n, {}, {}
        self.v = [at] + ([J.iv(1)] + [J.ZERO_I] * (n - 1) if n else [])
        if kind != "middle":
            self.r2 = J.jmul(self.v, self.v)
            self.E = J.jexp(J.jneg(self.r2))

    def lin(self, t):
        """alpha, beta with t = alpha + beta p"""
        if t.op == "c":
            return t.a[0], Q(0)
        if t is P_:
            return Q(0), Q(1)
        if t.op == "+":
            ls = [self.lin(x) for x in t.a]
            return None if None in ls else (sum(l[0] for l in ls), sum(l[1] for l in ls))
        if t.op == "*":
            a, b = Q(1), Q(0)
            for x in t.a:
                l = self.lin(x)
                if l is None or (b and l[1]):
                    return None
                a, b = a * l[0], b * l[0] + a * l[1]
            return a, b
        return None

    def linear(self, l):
        """the tail's coefficient form"""
        a, b = l
        return (a + b, -b) if self.kind == "upper" else (a, b)

    def tail_log(self, l):
        """ln of beta E"""
        r = J.jneg(self.r2)
        r[0] = J.add(r[0], J.i_ln(J.iv(l[1])))
        return r if l[1] != 1 else J.jneg(self.r2)

    def minus_ln(self, t):
        """is t = -ln of exactly the tail?"""
        if self.kind == "middle" or t.op != "*" or len(t.a) != 2:
            return False
        c, x = t.a if t.a[0].op == "c" else t.a[::-1]
        if c.op == "c" and c.a[0] == -1 and x.op == "ln":
            l = self.lin(x.a[0])
            return l is not None and self.linear(l) == (0, 1)
        return False

    def val(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.val_(t)
        return r

    def val_(self, t):
        n, op = self.n, t.op
        if op == "c":
            return J.jconst(t.a[0], n)
        l = self.lin(t)
        if l is not None:
            if self.kind == "middle":
                x, (a, b) = self.v, l
            else:
                x, (a, b) = self.E, self.linear(l)
            r = [J.scale(c, b) for c in x]
            r[0] = J.add(r[0], J.iv(a))
            return r
        if op == "+":
            r = self.val(t.a[0])
            for x in t.a[1:]:
                r = J.jadd(r, self.val(x))
            return r
        if op == "*":
            up, down = [], []
            for x in t.a:
                if x.op == "pow" and isinstance(x.a[1], (int, Q)) and x.a[1] < 0:
                    down.append(J.jpow(self.val(x.a[0]), -Q(x.a[1])))
                else:
                    up.append(self.val(x))
            r = up[0] if up else J.jconst(1, n)
            for x in up[1:]:
                r = J.jmul(r, x)
            for x in down:
                r = J.jdiv(r, x)
            return r
        if op == "pow":
            q = t.a[1].a[0] if isinstance(t.a[1], T) else Q(t.a[1])
            if q == Q(1, 2) and self.minus_ln(t.a[0]):
                return self.v
            return J.jpow(self.val(t.a[0]), q)
        if op == "ln":
            l = self.lin(t.a[0])
            if l is not None and self.kind != "middle":
                l = self.linear(l)
                if l[0] == 0 and l[1] > 0:
                    return self.tail_log(l)
            return J.jln(self.val(t.a[0]))
        if op == "exp":
            return J.jexp(self.val(t.a[0]))
        if op == "ite":
            b = self.holds(t.a[0])
            if b is None:
                raise Wide("case")
            return self.val(t.a[1] if b else t.a[2])
        raise Skip("term " + op)

    def quiet(self, b):
        try:
            return self.holds(b)
        except Wide:
            return None

    def holds(self, b):
        """truth of a condition over the whole interval, or None"""
        op = b.op
        if op in ("true", "false"):
            return op == "true"
        if op == "not":
            r = self.holds(b.a[0])
            return None if r is None else not r
        if op in ("and", "or"):
            rs = [self.quiet(x) for x in b.a]
            bad = op == "or"
            if bad in rs:
                return bad
            return None if None in rs else not bad
        if op not in ("lt", "le", "eq") or b.a[0].s != "R":
            raise Skip("condition " + op)
        l = self.lin(sub(b.a[0], b.a[1]))
        if l is not None and self.kind != "middle" and self.linear(l)[0] == 0:
            d = self.linear(l)[1]       # beta E against zero
            d = (d > 0) - (d < 0)
            return {"lt": d < 0, "le": d <= 0, "eq": d == 0}[op]
        x, y = self.val(b.a[0])[0], self.val(b.a[1])[0]
        d = J.sub(x, y)
        if op == "eq":
            return True if d == (0, 0) else False if d[0] > 0 or d[1] < 0 else None
        if d[1] < 0 or (op == "le" and d[1] <= 0):
            return True
        if d[0] > 0 or (op == "lt" and d[0] >= 0):
            return False
        return None

    # ------------------------------------------------------------- rounding
    def real(self, raw):
        """raw -> the real term it stands for"""
        key = raw if isinstance(raw, T) else id(raw)
        if key in self.errs:
            return self.errs[key]
        r = self.errs[key] = self.real_(raw)
        return r

    def real_(self, raw):
        """(value, error in units of u) over the interval"""
        op = raw[0]
        if op == "leaf":
            t = raw[1]
            v = self.val(t)[0]
            return t, v, 0 if t is P_ or exact(t) else J.mag(v)
        if op in ("Add", "Sub", "Mul", "Div"):
            (ta, a, ea), (tb, b, eb) = self.real(raw[1]), self.real(raw[2])
            if op in ("Add", "Sub"):
                t = add(ta, tb) if op == "Add" else sub(ta, tb)
                v = self.val(t)[0]
                e = ea + eb
                if op == "Sub" and e == 0 and self.sterbenz(ta, tb):
                    return t, v, 0
                return t, v, e + J.mag(v)
            if op == "Mul":
                t = mul(ta, tb)
                v = self.val(t)[0]
                return t, v, ce(J.mag(a) * eb + J.mag(b) * ea) + J.mag(v)
            t = div(ta, tb)
            v = self.val(t)[0]
            low = min(abs(b[0]), abs(b[1]))
            if b[0] <= 0 <= b[1]:
                raise Wide("division")
            return t, v, -((-(ea << J.P) - J.mag(v) * eb) // low) + J.mag(v)
        if op == "neg":
            t, a, e = self.real(raw[1])
            t = neg(t)
            return t, self.val(t)[0], e
        if op in ("sqrt", "ln", "abs"):
            ta, a, ea = self.real(raw[1])
            if op == "abs":
                t = ite(lt(ta, ZERO), neg(ta), ta)
                return t, self.val(t)[0], ea
            t = power(ta, Q(1, 2)) if op == "sqrt" else fn("ln", ta)
            v = self.val(t)[0]
            if op == "sqrt":
                return t, v, (-((-(ea << J.P)) // (2 * v[0])) if ea else 0) + J.mag(v)
            if ea == 0:
                return t, v, 2 * J.mag(v)
            a = self.val(ta)[0]
            if a[0] <= 0:
                raise Wide("logarithm")
            return t, v, -((-(ea << J.P)) // a[0]) + 2 * J.mag(v)
        raise Skip("operation " + str(op))

    def sterbenz(self, ta, tb):
        """a / 2 <= b <= 2 a for exact a, b"""
        return self.holds(conj(le(ta, mul(const(2), tb)), le(tb, mul(const(2), ta)), lt(ZERO, ta), lt(ZERO, tb))) is True


def exact(t):
    if t.op != "c":
        return False
    d, n = t.a[0].denominator, abs(t.a[0].numerator)
    if d & (d - 1) or d > 1 << 900:
        return False
    while n and not n & 1:
        n >>= 1
    return n < 1 << 53


def ce(x):
    return J.shr_ce(x, J.P)


class Path:
    def __init__(self, nm, pc, t, raw):
        self.nm, self.pc, self.t, self.raw = nm, pc, t, raw
        self.n, self.worst, self.err, self.state, self.note = 0, 0, 0, None, ""
        self.rounding = None


def run(p):
    key = "kernel run " + NAME
    if key not in p.done:
        try:
            ex = p.W.exec()
            ex.contracts.pop(NAME, None)
            f = p.W.m.funcs.get(NAME)
            if f is None or f.blocks is None:
                raise Unsupported("function %s not found" % NAME)
            import loops
            loops.install(ex, p.W)
            outs = ex.run(f, [Fl(P_)], symex.St(pc=[le(ZERO, P_), le(P_, ONE)]))
            p.functions.add(NAME)
            p.functions.update(ex.entered)
            p.done[key] = (ex, outs)
        except Unsupported as e:
            p.done[key] = e
    return p.done[key]


def cells():
    """the cover: region, lower and upper end of its variable"""
    split = Q(161, 100)                  # exp(-1.61^2) = 0.0749: the code's own split lies close to it
    with mp.workprec(200):
        E = Q(int(mp.floor(mp.exp(-(mp.mpf(161) / 100) ** 2) * 2 ** 60)), 2 ** 60)      # below the split's probability
    r = split
    while r < R_MAX:
        s = min(R_MAX, r + Q(1, 4))
        yield "lower", r, s
        yield "upper", r, s
        r = s
    a = E
    n = 96
    for i in range(n):
        yield "middle", a + (1 - 2 * a) * i / n, a + (1 - 2 * a) * (i + 1) / n


def one(path, kind, a, b, depth, accuracy):
    """(decided, ok or not) for the part of the cell where the path's condition may hold"""
    at = J.ivs(a, b)
    try:
        thin = Region(kind, at, 0)
        c = thin.holds(conj(*path.pc))
    except Wide:
        c = None
        thin = None
    if c is False:
        return True
    if c is None and b - a > Q(1, 1 << 20):
        return None
    m = (a + b) / 2
    try:
        W, M = Region(kind, at, ORDER), Region(kind, J.iv(m), ORDER)
        jw, jm = tail(W, path.t, kind, m), tail(M, path.t, kind, m)
        h = (b - a) / 2
        g = J.taylor_range(jm, jw, h)
        d = J.taylor_range(J.derivative(jm), J.derivative(jw), h)
        # y' = L' + g', and y decreases in the value where it is the upper tail's logarithm
        L = J.neg(J.scale(at, 2)) if kind != "middle" else (J.div(J.iv(1), at) if m < Q(1, 2) else J.neg(J.div(J.iv(1), J.sub(J.iv(1), at))))
        y = J.add(L, d)
        up = kind == "upper" or (kind == "middle" and m >= Q(1, 2))
        want = -1 if kind != "middle" or up else 1        # the sign of y' for an increasing value
        mono = y[1] < 0 if want < 0 else y[0] > 0
        ok = J.mag(g) <= J.iv(TOL)[0] and mono
        if ok:
            path.worst = max(path.worst, J.mag(g))
            path.n += 1
            if accuracy:
                rounding(path, W if thin is None else thin)
            return True
    except Wide:
        ok = None
    if b - a > Q(1, 1 << 10):
        return None
    # is it the code, or the enclosure?
    try:
        M = Region(kind, J.iv(m), 1)
        if M.holds(conj(*path.pc)) is True:
            jm = tail(M, path.t, kind, m)
            if min(abs(jm[0][0]), abs(jm[0][1])) > J.iv(TOL)[1] and not jm[0][0] <= 0 <= jm[0][1]:
                path.state = "refuted"
                with mp.workprec(400):
                    pm = mp.mpf(m.numerator) / m.denominator
                    e = mp.exp(-pm * pm) if kind != "middle" else pm
                    path.note = "at p = %s%s the logarithm of the tail is off by %s" % ("1 - " if kind == "upper" else "", mp.nstr(e, 12), mp.nstr(J.to_mp(jm[0][0]), 6))
                    path.at = float(1 - e if kind == "upper" else e)
                return False
    except Wide:
        pass
    path.state = path.state or "unknown"
    path.note = path.note or "not enclosed in %s between %s and %s" % (kind, float(a), float(b))
    return False


def tail(R, t, kind, m):
    """ln of the smaller tail at the value, less that of p"""
    x = R.val(t)
    up = kind == "upper" or (kind == "middle" and m >= Q(1, 2))
    y = J.j_ln_tail(x if up else J.jneg(x))
    if kind != "middle":
        L = J.jneg(R.r2)
    else:
        v = R.v if not up else [J.sub(J.iv(1), R.v[0])] + [J.neg(c) for c in R.v[1:]]
        L = J.jln(v)
    return [J.sub(a, b) for a, b in zip(y, L)]


def rounding(path, R):
    try:
        t, v, e = R.real(path.raw)
        low = 0 if v[0] <= 0 <= v[1] else min(abs(v[0]), abs(v[1]))
        if low == 0:
            # next to the median the error vanishes with the value: compare per unit of q = p - 1/2
            path.rounding = path.rounding or ("median", R)
            return
        k = (e << J.P) // low
        path.err = max(path.err, k)
    except (Skip, Wide, ZeroDivisionError, TypeError) as err:
        path.rounding = path.rounding or ("lost", str(err))


def check(p, accuracy=False):
    key = "gaussian quantile " + str(accuracy)
    if key in p.done:
        return
    p.done[key] = True
    t0 = time.time()
    r = run(p)
    if isinstance(r, Unsupported):
        return p.lost("gaussian::inverse", r)
    ex, outs = r
    paths = []
    for i, o in enumerate(outs):
        nm = "gaussian::inverse/path%d" % i
        if o.kind == "ret" and isinstance(o.val, Fl):
            paths.append(Path(nm, list(o.st.pc), o.val.t, o.val.raw))
        elif o.kind == "ret":
            want = {symex.NINF: eq(P_, ZERO), symex.PINF: eq(P_, ONE)}.get(o.val, FALSE)
            p.goal(nm + ": infinite at the ends only", list(o.st.pc), want)
        else:
            p.ob(nm + " cannot panic", p.dead(list(o.st.pc)), pc=o.st.pc)
    for q in paths:
        p.goal(q.nm + ": finite inside only", q.pc, conj(lt(ZERO, P_), lt(P_, ONE)))
    try:
        for kind, a, b in cells():
            for q in paths:
                todo = [(a, b)]
                while todo and q.state != "refuted":
                    if time.time() > p.W.t_end:
                        q.state, q.note = q.state or "budget", "time budget"
                        break
                    x, y = todo.pop()
                    if one(q, kind, x, y, 0, accuracy) is None:
                        todo += [((x + y) / 2, y), (x, (x + y) / 2)]
                    if q.state == "unknown":
                        break
    except Skip as e:
        return p.lost("gaussian::inverse", Unsupported(str(e)))
    dt = (time.time() - t0) / max(1, len(paths))
    for q in paths:
        if q.state == "refuted":
            for F, ps in (("Gaussian.default", ()), ("Gaussian", (0., 1.))):
                if F in FAM and "inverse" in FAM[F].m and 0 < q.at < 1:
                    p.target(FAM[F], "inverse", ps, q.at)
        if q.state:
            res = ("open", {"refuted": "refuted", "budget": "time budget"}.get(q.state, "unsupported"))
        else:
            res = ("proved", "interval")
        p.ob("%s: the quantile to within 1e-12 of the tail, increasing" % q.nm, res, pc=q.pc, t0=time.time() - dt,
             note=q.note or "%d cells, off by at most %s" % (q.n, mp.nstr(J.to_mp(q.worst), 3)))
        if accuracy and not q.state:
            p.ob("%s: operations" % q.nm, ("proved", "interval") if not (q.rounding and q.rounding[0] == "lost") and q.err <= J.iv(ULPS)[0]
                 else ("open", "unsupported"), pc=q.pc, note="%s %s" % (mp.nstr(J.to_mp(q.err), 5), q.rounding and q.rounding[1]))


def C05(p):
    import prove3
    prove3.C05(p)
    check(p)


def C06(p):
    import prove3
    prove3.C06(p)
    check(p)


def C19(p):
    import prove6
    prove6.C19(p)
    check(p, True)
