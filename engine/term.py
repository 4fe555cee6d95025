"""Terms over the extended logic of the verifier: real, integer and boolean
expressions, hash-consed.  Real terms denote finite reals; infinities and NaN
are tags handled by the executor, never terms."""
from fractions import Fraction
import mpmath as mp

Q = Fraction
_tab = {}


class T:
    __slots__ = ("op", "a", "s", "id", "fv", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):      # deterministic iteration orders
        return self.id


def mk(op, *a, s="R"):
    key = (op, a, s)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.s, t.id = op, a, s, len(_tab)
        t.fv = None
        _tab[key] = t
    return t


def key_args(a):
    return a


def const(q, s="R"):
    return mk("c", Q(q), s=s)


def var(name, s="R"):
    return mk("v", name, s=s)


def isc(t):
    return t.op == "c"


ZERO, ONE = const(0), const(1)
IZERO, IONE = const(0, "I"), const(1, "I")
TRUE, FALSE = mk("true", s="B"), mk("false", s="B")


def c(x):
    return x if isinstance(x, T) else const(x)


def ci(x):
    return x if isinstance(x, T) else const(x, "I")


def add(*xs):
    s = "R"
    acc, terms = Q(0), {}
    order = []

    def put(t, k):
        nonlocal acc
        if t.op == "c":
            acc += k * t.a[0]
        elif t.op == "+":
            for u in t.a:
                put(u, k)
        elif t.op == "*" and t.a[0].op == "c":
            r = t.a[1:]
            u = r[0] if len(r) == 1 else mk("*", *r, s=t.s)
            if u.op == "+":
                for w in u.a:
                    put(w, k * t.a[0].a[0])
                return
            if u not in terms:
                order.append(u)
            terms[u] = terms.get(u, 0) + k * t.a[0].a[0]
        else:
            if t not in terms:
                order.append(t)
            terms[t] = terms.get(t, 0) + k
    for x in xs:
        s = x.s
        put(x, Q(1))
    out = []
    for t in order:
        k = terms[t]
        if k == 0:
            continue
        out.append(t if k == 1 else mul(const(k, s), t))
    if acc != 0 or not out:
        out.append(const(acc, s))
    if len(out) == 1:
        return out[0]
    return mk("+", *out, s=s)


def mul(*xs):
    s = "R"
    k = Q(1)
    fs = []

    def put(t):
        nonlocal k
        if t.op == "c":
            k *= t.a[0]
        elif t.op == "*":
            for u in t.a:
                put(u)
        else:
            fs.append(t)
    for x in xs:
        s = x.s
        put(x)
    if k == 0:
        return const(0, s)
    # merge equal factors into powers (reals only)
    if s == "R":
        ex, order = {}, []
        for f in fs:
            b, e = (f.a[0], f.a[1]) if f.op == "pow" else (f, Q(1))
            if b not in ex:
                order.append(b)
                ex[b] = Q(0)
            ex[b] += e
        fs = []
        for b in order:
            # keep 0 exponents out; b != 0 is guaranteed where a negative power was formed
            if ex[b] == 0:
                continue
            fs.append(b if ex[b] == 1 else mk("pow", b, ex[b]))
    if not fs:
        return const(k, s)
    if k == 1 and len(fs) == 1:
        return fs[0]
    if k != 1:
        fs = [const(k, s)] + fs
    return mk("*", *fs, s=s)


def neg(x):
    return mul(const(-1, x.s), x)


def sub(x, y):
    return add(x, neg(y))


def power(x, e):
    e = Q(e)
    if e == 0:
        return ONE
    if e == 1:
        return x
    if x.op == "c" and e.denominator == 1 and (x.a[0] != 0 or e > 0):
        return const(x.a[0] ** int(e))
    if x.op == "c" and x.a[0] in (0, 1) and e > 0:
        return x
    if x.op == "pow" and x.a[1].denominator == 1 and e.denominator == 1:
        return power(x.a[0], x.a[1] * e)
    if x.op == "*" and e.denominator == 1:
        return mul(*[power(f, e) for f in x.a])
    if x.op == "exp":
        return fn("exp", mul(const(e), x.a[0]))
    return mk("pow", x, e)


def div(x, y):
    return mul(x, power(y, -1))


def sqrt(x):
    return power(x, Q(1, 2))


def fn(name, *a):
    """A real function of real arguments."""
    if name == "exp":
        if a[0] is ZERO:
            return ONE
        if a[0].op == "ln":
            return a[0].a[0]
    if name == "ln":
        if a[0] is ONE:
            return ZERO
        if a[0].op == "exp":
            return a[0].a[0]
    if name in ("sin", "tan", "atan", "erf") and a[0] is ZERO:
        return ZERO
    return mk(name, *a)


PI = mk("pi")


def i2r(t):
    if t.op == "c":
        return const(t.a[0])
    if t.op == "+":
        return add(*[i2r(u) for u in t.a])
    if t.op == "*":
        return mul(*[i2r(u) for u in t.a])
    return mk("i2r", t)


# ------------------------------------------------------------------ booleans
def lt(x, y):
    return _cmp("lt", x, y)


def le(x, y):
    return _cmp("le", x, y)


def eq(x, y):
    if x is y:
        return TRUE
    if x.op == "c" and y.op == "c":
        return TRUE if x.a[0] == y.a[0] else FALSE
    if x.s == "B":
        return conj(disj(neg_b(x), y), disj(x, neg_b(y)))
    if x.id > y.id:
        x, y = y, x
    return mk("eq", x, y, s="B")


def _cmp(op, x, y):
    if x is y:
        return TRUE if op == "le" else FALSE
    if x.op == "c" and y.op == "c":
        r = x.a[0] < y.a[0] if op == "lt" else x.a[0] <= y.a[0]
        return TRUE if r else FALSE
    if x is ZERO and y.op == "*":
        return _cmp(op, x, mul(*[u for u in y.a if not positive(u)])) if any(map(positive, y.a)) else mk(op, x, y, s="B")
    if y is ZERO and x.op == "*":
        return _cmp(op, mul(*[u for u in x.a if not positive(u)]), y) if any(map(positive, x.a)) else mk(op, x, y, s="B")
    return mk(op, x, y, s="B")


def positive(u):
    """a factor that is positive whatever its argument"""
    return u.op == "exp" or u.op == "pow" and u.a[0].op == "exp" or u.op == "pi" or u.op == "c" and u.a[0] > 0


def neg_b(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    if x.op == "lt":
        return le(x.a[1], x.a[0])
    if x.op == "le":
        return lt(x.a[1], x.a[0])
    return mk("not", x, s="B")


def conj(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.a if x.op == "and" else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk("and", *out, s="B")


def disj(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.a if x.op == "or" else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else mk("or", *out, s="B")


def ne(x, y):
    return neg_b(eq(x, y))


def ite(b, x, y):
    if b is TRUE:
        return x
    if b is FALSE:
        return y
    if x is y:
        return x
    return mk("ite", b, x, y, s=x.s)


_height = {}


def height(t):
    """nesting depth of binders in t"""
    r = _height.get(t)
    if r is None:
        r = 0
        for u in t.a:
            if isinstance(u, T):
                r = max(r, height(u))
        if t.op in ("sum", "forall"):
            r += 1
        _height[t] = r
    return r


def _bound(v, body):
    """alpha-canonical bound variable: its name is the nesting depth of the body"""
    c_ = var("@b%d" % height(body), "I")
    return (v, body) if v is c_ else (c_, subst(body, {v: c_}))


def forall(v, lo, hi, body):
    """lo <= v < hi (integers)"""
    if body is TRUE:
        return TRUE
    v, body = _bound(v, body)
    return mk("forall", v, lo, hi, body, s="B")


def sum_(v, lo, hi, body):
    if body is ZERO:
        return ZERO
    v, body = _bound(v, body)
    return mk("sum", v, lo, hi, body)


def sel(arr, i):
    """element of a symbolic array of reals"""
    return mk("sel", arr, i)


# ------------------------------------------------------------------ traversal
def free(t):
    if t.fv is None:
        if t.op == "v":
            t.fv = frozenset([t])
        elif t.op in ("sum", "forall"):
            r = free(t.a[1]) | free(t.a[2]) | (free(t.a[3]) - {t.a[0]})
            t.fv = frozenset(r)
        else:
            r = set()
            for u in t.a:
                if isinstance(u, T):
                    r |= free(u)
            t.fv = frozenset(r)
    return t.fv


BUILD = {"+": add, "*": mul, "lt": lt, "le": le, "eq": eq, "not": neg_b, "and": conj, "or": disj, "i2r": i2r,
         "ite": ite, "pow": lambda b, e: power(b, e), "sum": sum_, "forall": forall}
FNS = {"exp", "ln", "sin", "cos", "tan", "atan", "erf", "erfc", "lgam", "digam", "incb", "incg", "iincb", "phiinv"}


def rebuild(t, args):
    if t.op in BUILD:
        return BUILD[t.op](*args)
    if t.op in FNS:
        return fn(t.op, *args)
    if t.op == "r2i":
        return r2i(*args)
    if t.op in RFN:
        return RFN[t.op](*args)
    return mk(t.op, *args, s=t.s)


_fresh = [0]


def fresh(name, s="R"):
    _fresh[0] += 1
    return var("%s#%d" % (name, _fresh[0]), s)


def subst(t, m, memo=None):
    """m: dict term -> term (any subterm)"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a or t.op in ("c", "v"):
        return t
    if t.op in ("sum", "forall"):
        v, lo, hi, body = t.a
        if v in m:
            m = {k: x for k, x in m.items() if k is not v}
            memo2 = {}
        else:
            memo2 = memo
        r = rebuild(t, (v, subst(lo, m, memo), subst(hi, m, memo), subst(body, m, memo2)))
    else:
        args = tuple(subst(u, m, memo) if isinstance(u, T) else u for u in t.a)
        r = t if args == t.a else rebuild(t, args)
    memo[t] = r
    return r


def floor_(x):
    if x.op == "c":
        return const(x.a[0].numerator // x.a[0].denominator)
    if x.op == "i2r" or unreal(x) is not None:
        return x
    return mk("floor", x)


def trunc_(x):
    if x.op == "c":
        return const(int(x.a[0]))
    if x.op == "i2r" or unreal(x) is not None:
        return x
    return mk("trunc", x)


def round_(x):
    if x.op == "c":
        q = x.a[0]
        k = (abs(q) + Q(1, 2)).__floor__()
        return const(k if q >= 0 else -k)
    if x.op == "i2r" or unreal(x) is not None:
        return x
    return mk("round", x)


def r2i(x):
    """truncation of a nonnegative real to an integer (saturating casts are split by the executor)"""
    if x.op == "c":
        return const(int(x.a[0]), "I")
    if x.op == "i2r":
        return x.a[0]
    if isint_real(x):
        u = unreal(x)
        if u is not None:
            return u
    return mk("r2i", x, s="I")


def unreal(x):
    if x.op == "c" and x.a[0].denominator == 1:
        return const(x.a[0], "I")
    if x.op == "i2r":
        return x.a[0]
    if x.op in ("+", "*"):
        us = [unreal(u) for u in x.a]
        if all(u is not None for u in us):
            return (add if x.op == "+" else mul)(*us)
    return None


def isint_real(x):
    return unreal(x) is not None


RFN = {"floor": floor_, "trunc": trunc_, "round": round_}


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if t.op == "c":
        return str(t.a[0])
    if t.op == "v":
        return str(t.a[0])
    if d > 40:
        return "…"
    if t.op == "+":
        return "(" + " + ".join(show(u, d + 1) for u in t.a) + ")"
    if t.op == "*":
        return "·".join(show(u, d + 1) for u in t.a)
    if t.op == "pow":
        return "%s^(%s)" % (show(t.a[0], d + 1), t.a[1])
    if t.op in ("lt", "le", "eq"):
        return "%s %s %s" % (show(t.a[0], d + 1), {"lt": "<", "le": "≤", "eq": "="}[t.op], show(t.a[1], d + 1))
    if t.op == "i2r":
        return show(t.a[0], d + 1)
    if not t.a:
        return t.op
    return "%s(%s)" % (t.op, ", ".join(show(u, d + 1) for u in t.a))


# ------------------------------------------------------------------ numeric evaluation
class Undefined(Exception):
    pass


def evalmp(t, env, memo=None):
    """Evaluate at mpmath precision.  env: T(var or array) -> value; arrays are lists."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = _ev(t, env, memo)
    memo[t] = r
    return r


def _ev(t, env, memo):
    op, a = t.op, t.a
    if op == "c":
        return int(a[0]) if t.s == "I" else mp.mpf(a[0].numerator) / a[0].denominator
    if op == "v":
        return env[t]
    if op == "pi":
        return mp.pi()
    if op in ("sum", "forall"):
        v, lo, hi, body = a
        lo, hi = evalmp(lo, env, memo), evalmp(hi, env, memo)
        if hi - lo > 200000:
            raise Undefined("long sum")
        acc = mp.mpf(0)
        for k in range(int(lo), int(hi)):
            e2 = dict(env)
            e2[v] = k
            x = evalmp(body, e2, {})
            if op == "sum":
                acc += x
            elif not x:
                return False
        return acc if op == "sum" else True
    if op == "ite":
        return evalmp(a[1] if evalmp(a[0], env, memo) else a[2], env, memo)
    if op == "and":
        return all(evalmp(u, env, memo) for u in a)
    if op == "or":
        return any(evalmp(u, env, memo) for u in a)
    if op == "sel":
        arr, i = env[a[0]], evalmp(a[1], env, memo)
        return arr[int(i)]
    if op == "pow":
        b, e = evalmp(a[0], env, memo), a[1]
        if b == 0 and e < 0:
            raise Undefined("0^-")
        if e.denominator == 1:
            return b ** int(e)
        if b < 0:
            raise Undefined("root of negative")
        return mp.power(b, mp.mpf(e.numerator) / e.denominator)
    x = [evalmp(u, env, memo) for u in a]
    if op == "+":
        return sum(x[1:], x[0])
    if op == "*":
        r = x[0]
        for y in x[1:]:
            r = r * y
        return r
    if op == "i2r":
        return mp.mpf(x[0])
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "lt":
        return x[0] < x[1]
    if op == "le":
        return x[0] <= x[1]
    if op == "eq":
        return x[0] == x[1]
    if op == "not":
        return not x[0]
    if op == "exp":
        return mp.exp(x[0])
    if op == "ln":
        if x[0] <= 0:
            raise Undefined("ln")
        return mp.log(x[0])
    if op == "sin":
        return mp.sin(x[0])
    if op == "cos":
        return mp.cos(x[0])
    if op == "tan":
        return mp.tan(x[0])
    if op == "atan":
        return mp.atan(x[0])
    if op == "erf":
        return mp.erf(x[0])
    if op == "erfc":
        return mp.erfc(x[0])
    if op == "lgam":
        return mp.loggamma(x[0])
    if op == "digam":
        return mp.digamma(x[0])
    if op == "incb":
        z, p, q = x
        if z <= 0:
            return mp.mpf(0)
        if z >= 1:
            return mp.mpf(1)
        return ibeta(z, p, q)
    if op == "incg":
        return mp.gammainc(x[1], 0, x[0], regularized=True)
    if op == "phiinv":
        p = x[0]
        if not 0 < p < 1:
            raise Undefined("phiinv")
        return mp.sqrt(2) * mp.erfinv(2 * p - 1) if p > mp.mpf("1e-8") and p < 1 - mp.mpf("1e-8") else _phiinv(p)
    if op == "iincb":
        p, al, be = x
        lo, hi = mp.mpf(0), mp.mpf(1)
        for _ in range(120):
            m = (lo + hi) / 2
            if ibeta(m, al, be) < p:
                lo = m
            else:
                hi = m
        return (lo + hi) / 2
    if op == "floor":
        return mp.floor(x[0])
    if op == "trunc":
        return mp.floor(x[0]) if x[0] >= 0 else mp.ceil(x[0])
    if op == "round":
        return mp.floor(x[0] + mp.mpf("0.5")) if x[0] >= 0 else -mp.floor(-x[0] + mp.mpf("0.5"))
    if op == "r2i":
        return int(x[0])
    if op == "idiv":
        return x[0] // x[1]
    if op == "imod":
        return x[0] % x[1]
    if op in env.get("funs", {}):
        return env["funs"][op](*x)
    raise Undefined("op " + op)


def ibeta(x, a, b):
    """regularised incomplete beta function by the continued fraction (modified Lentz)"""
    x, a, b = mp.mpf(x), mp.mpf(a), mp.mpf(b)
    if x > (a + 1) / (a + b + 2):
        return 1 - _ibcf(1 - x, b, a)
    return _ibcf(x, a, b)


def _ibcf(x, a, b):
    front = mp.exp(mp.loggamma(a + b) - mp.loggamma(a) - mp.loggamma(b) + a * mp.log(x) + b * mp.log1p(-x)) / a
    tiny = mp.mpf(10) ** -60
    eps = mp.mpf(10) ** -30
    cc, d = mp.mpf(1), 1 - (a + b) * x / (a + 1)
    if abs(d) < tiny:
        d = tiny
    d = 1 / d
    h = d
    for m in range(1, 20000):
        m2 = 2 * m
        e = m * (b - m) * x / ((a + m2 - 1) * (a + m2))
        d = 1 + e * d
        d = 1 / (d if abs(d) > tiny else tiny)
        cc = 1 + e / cc
        if abs(cc) < tiny:
            cc = tiny
        h *= d * cc
        e = -(a + m) * (a + b + m) * x / ((a + m2) * (a + m2 + 1))
        d = 1 + e * d
        d = 1 / (d if abs(d) > tiny else tiny)
        cc = 1 + e / cc
        if abs(cc) < tiny:
            cc = tiny
        h *= d * cc
        if abs(d * cc - 1) < eps:
            return front * h
    raise Undefined("ibeta")


def _phiinv(p):
    # bisection on log scale, precise in the tails
    q = min(p, 1 - p)
    lo, hi = mp.mpf(-60), mp.mpf(0)
    for _ in range(160):
        m = (lo + hi) / 2
        if mp.erfc(-m / mp.sqrt(2)) / 2 < q:
            lo = m
        else:
            hi = m
    r = (lo + hi) / 2
    return r if p < mp.mpf("0.5") else -r
