"""Assumed contracts of library functions (core, alloc, special, random).

special::Primitive methods, the special functions, vectors, slices, iterators and
options are replaced by their mathematical meaning.  call() returns outcomes or
None when the function is not known here."""
import re
from term import *
import symex
from symex import Fl, Agg, SymVec, IVec, Ref, Seq, Out, Unsupported, option, PINF, NINF, NAN, isf, fcmp, flip, UNIT

ONE_, HALF = ONE, const(Q(1, 2))


def short(head):
    h = re.sub(r"\{closure@[^}]*\}", "{closure}", head)
    return h


def R(st, v):
    return [Out("ret", st, v)]


def deref(ex, st, v):
    n = 0
    while isinstance(v, Ref):
        v = ex.load(st, v.root, v.path)
        n += 1
        if n > 12:
            raise Unsupported("deref cycle")
    return v


# ------------------------------------------------------------------ floats
def un(name, f):
    def g(ex, st, x):
        return f(ex, st, x)
    g.__name__ = name
    return g


def f_exp(ex, st, x):
    if isinstance(x, str):
        return R(st, {PINF: PINF, NINF: Fl(ZERO), NAN: NAN}[x])
    return R(st, Fl(fn("exp", x.t), ("exp", x.raw)))


def f_exp_m1(ex, st, x):
    if isinstance(x, str):
        return R(st, {PINF: PINF, NINF: Fl(const(-1)), NAN: NAN}[x])
    return R(st, Fl(sub(fn("exp", x.t), ONE), ("exp_m1", x.raw)))


def _log(ex, st, x, t, raw):
    """ln of the finite real t"""
    out = []
    for s1, pos in ex.split(st, lt(ZERO, t)):
        if pos:
            out.append(Out("ret", s1, Fl(fn("ln", t), raw)))
            continue
        for s2, z in ex.split(s1, eq(t, ZERO)):
            out.append(Out("ret", s2, NINF if z else NAN))
    return out


def f_ln(ex, st, x):
    if isinstance(x, str):
        return R(st, {PINF: PINF, NINF: NAN, NAN: NAN}[x])
    return _log(ex, st, x, x.t, ("ln", x.raw))


def f_log(base):
    def g(ex, st, x):
        outs = f_ln(ex, st, x)
        for o in outs:
            if isinstance(o.val, Fl):
                o.val = Fl(div(o.val.t, fn("ln", const(base))), ("log", x.raw))
        return outs
    return g


def f_ln_1p(ex, st, x):
    if isinstance(x, str):
        return R(st, {PINF: PINF, NINF: NAN, NAN: NAN}[x])
    return _log(ex, st, x, add(ONE, x.t), ("ln_1p", x.raw))


def f_sqrt(ex, st, x):
    if isinstance(x, str):
        return R(st, {PINF: PINF, NINF: NAN, NAN: NAN}[x])
    out = []
    for s1, nn in ex.split(st, le(ZERO, x.t)):
        if not nn:
            out.append(Out("ret", s1, NAN))
        elif x.t.op == "pow" and x.t.a[1] == 2 and False:
            pass
        else:
            out.append(Out("ret", s1, Fl(sqrt(x.t), ("sqrt", x.raw))))
    return out


def f_abs(ex, st, x):
    if isinstance(x, str):
        return R(st, NAN if x == NAN else PINF)
    out = []
    for s1, nn in ex.split(st, le(ZERO, x.t)):
        out.append(Out("ret", s1, x if nn else Fl(neg(x.t), ("neg", x.raw))))
    return out


def f_neg(ex, st, x):
    return R(st, flip(x) if isinstance(x, str) else Fl(neg(x.t), ("neg", x.raw)))


def f_recip(ex, st, x):
    return [Out("ret", s, v) for s, v in ex.fbin(st, "Div", Fl(ONE), x)]


def f_round(kind):
    def g(ex, st, x):
        if isinstance(x, str):
            return R(st, x)
        return R(st, Fl({"floor": floor_, "trunc": trunc_, "round": round_}[kind](x.t), (kind, x.raw)))
    return g


def f_ceil(ex, st, x):
    if isinstance(x, str):
        return R(st, x)
    return R(st, Fl(neg(floor_(neg(x.t))), ("floor", x.raw)))


def f_fract(ex, st, x):
    if isinstance(x, str):
        return R(st, NAN)
    return R(st, Fl(sub(x.t, trunc_(x.t)), ("Sub", x.raw, ("trunc", x.raw))))


def f_simple(name):
    def g(ex, st, x):
        if isinstance(x, str):
            if name == "atan":
                if x == NAN:
                    return R(st, NAN)
                h = mul(HALF, PI)
                return R(st, Fl(h if x == PINF else neg(h)))
            return R(st, NAN)
        return R(st, Fl(fn(name, x.t), (name, x.raw)))
    return g


def f_erf(ex, st, x):
    if isinstance(x, str):
        return R(st, {PINF: Fl(ONE), NINF: Fl(const(-1)), NAN: NAN}[x])
    return R(st, Fl(fn("erf", x.t), ("erf", x.raw)))


def f_erfc(ex, st, x):
    if isinstance(x, str):
        return R(st, {PINF: Fl(ZERO), NINF: Fl(const(2)), NAN: NAN}[x])
    return R(st, Fl(sub(ONE, fn("erf", x.t)), ("erfc", x.raw)))


def f_isnan(ex, st, x):
    return R(st, TRUE if x == NAN else FALSE)


def f_isinf(ex, st, x):
    return R(st, TRUE if x in (PINF, NINF) and isinstance(x, str) else FALSE)


def f_isfinite(ex, st, x):
    return R(st, TRUE if isinstance(x, Fl) else FALSE)


def f_signum(ex, st, x):
    if isinstance(x, str):
        return R(st, {PINF: Fl(ONE), NINF: Fl(const(-1)), NAN: NAN}[x])
    return [Out("ret", s, Fl(ONE if p else const(-1))) for s, p in ex.split(st, le(ZERO, x.t))]


UN = {"exp": f_exp, "exp_m1": f_exp_m1, "ln": f_ln, "ln_1p": f_ln_1p, "sqrt": f_sqrt, "abs": f_abs, "recip": f_recip,
      "floor": f_round("floor"), "trunc": f_round("trunc"), "round": f_round("round"), "ceil": f_ceil, "fract": f_fract,
      "tan": f_simple("tan"), "atan": f_simple("atan"), "sin": f_simple("sin"), "cos": f_simple("cos"),
      "error": f_erf, "compl_error": f_erfc, "is_nan": f_isnan, "is_infinite": f_isinf, "is_finite": f_isfinite, "neg": f_neg,
      "log2": f_log(2), "log10": f_log(10), "signum": f_signum}


def f_powi(ex, st, x, n):
    if isinstance(x, str):
        if x == NAN:
            return R(st, NAN)
        if n.op != "c":
            raise Unsupported("powi of infinity")
        k = int(n.a[0])
        if k == 0:
            return R(st, Fl(ONE))
        if k < 0:
            return R(st, Fl(ZERO))
        return R(st, PINF if x == PINF or k % 2 == 0 else NINF)
    if n.op == "c":
        k = int(n.a[0])
        if k >= 0:
            return R(st, Fl(power(x.t, k), ("powi", x.raw, k)))
        out = []
        for s, z in ex.split(st, eq(x.t, ZERO)):
            out.append(Out("ret", s, PINF if z else Fl(power(x.t, k), ("powi", x.raw, k))))
        return out
    out = []
    for s, p in ex.split(st, lt(ZERO, x.t)):
        if not p:
            raise Unsupported("symbolic power of a nonpositive number")
        out.append(Out("ret", s, Fl(fn("exp", mul(i2r(n), fn("ln", x.t))), ("powf", x.raw, ("i2r", n)))))
    return out


def f_powf(ex, st, x, y):
    if isinstance(y, Fl) and y.t is ZERO:
        return R(st, Fl(ONE))
    if x == NAN or y == NAN:
        return R(st, NAN)
    if isinstance(x, Fl) and isinstance(y, Fl):
        if y.t.op == "c":
            e = y.t.a[0]
            if e.denominator == 1:
                return f_powi(ex, st, x, const(e, "I"))
        out = []
        for s, p in ex.split(st, lt(ZERO, x.t)):
            if p:
                t = power(x.t, y.t.a[0]) if y.t.op == "c" else fn("exp", mul(y.t, fn("ln", x.t)))
                out.append(Out("ret", s, Fl(t, ("powf", x.raw, y.raw))))
                continue
            for s2, z in ex.split(s, eq(x.t, ZERO)):
                if not z:
                    if unreal(y.t) is not None:
                        raise Unsupported("integer power of a negative number")
                    out.append(Out("ret", s2, NAN))
                    continue
                for s3, g in ex.sgn(s2, y.t):
                    out.append(Out("ret", s3, {0: Fl(ONE), 1: Fl(ZERO), -1: PINF}[g]))
        return out
    if x == PINF and isinstance(y, Fl):
        return [Out("ret", s, {0: Fl(ONE), 1: PINF, -1: Fl(ZERO)}[g]) for s, g in ex.sgn(st, y.t)]
    if isinstance(x, Fl) and isinstance(y, str):
        out = []
        for s, b in ex.split(st, lt(x.t, ONE)):
            for s2, nn in ex.split(s, le(ZERO, x.t)):
                if not nn:
                    raise Unsupported("powf")
                if b:
                    out.append(Out("ret", s2, Fl(ZERO) if y == PINF else PINF))
                else:
                    for s3, one in ex.split(s2, eq(x.t, ONE)):
                        out.append(Out("ret", s3, Fl(ONE) if one else PINF if y == PINF else Fl(ZERO)))
        return out
    raise Unsupported("powf")


def f_minmax(is_min):
    def g(ex, st, x, y):
        if x == NAN:
            return R(st, y)
        if y == NAN:
            return R(st, x)
        return [Out("ret", s, (x if t else y) if is_min else (y if t else x)) for s, t in ex.split(st, fcmp("Le", x, y))]
    return g


def f_clamp(ex, st, x, lo, hi):
    if x == NAN:
        return R(st, NAN)
    out = []
    for s, t in ex.split(st, fcmp("Lt", x, lo)):
        if t:
            out.append(Out("ret", s, lo))
            continue
        for s2, t2 in ex.split(s, fcmp("Gt", x, hi)):
            out.append(Out("ret", s2, hi if t2 else x))
    return out


def f_mul_add(ex, st, x, y, z):
    out = []
    for s, m in ex.fbin(st, "Mul", x, y):
        for s2, r in ex.fbin(s, "Add", m, z):
            if isinstance(r, Fl):
                r = Fl(r.t, ("fma", x.raw, y.raw, z.raw))
            out.append(Out("ret", s2, r))
    return out


def f_bin(op):
    def g(ex, st, x, y):
        return [Out("ret", s, v) for s, v in ex.fbin(st, op, x, y)]
    return g


def ordering(k):
    return Agg("adt", "Ordering", k, ())


def f_partial_cmp(ex, st, x, y):
    if x == NAN or y == NAN:
        return R(st, option())
    out = []
    for s, e in ex.split(st, fcmp("Eq", x, y)):
        if e:
            out.append(Out("ret", s, option(ordering(0))))
            continue
        for s2, l in ex.split(s, fcmp("Lt", x, y)):
            out.append(Out("ret", s2, option(ordering(-1 if l else 1))))
    return out


BIN = {"powf": f_powf, "min": f_minmax(True), "max": f_minmax(False), "add": f_bin("Add"), "sub": f_bin("Sub"), "mul": f_bin("Mul"),
       "div": f_bin("Div"), "partial_cmp": f_partial_cmp}
for _o, _n in (("Lt", "lt"), ("Le", "le"), ("Gt", "gt"), ("Ge", "ge"), ("Eq", "eq"), ("Ne", "ne")):
    BIN[_n] = (lambda o: lambda ex, st, x, y: R(st, fcmp(o, x, y)))(_o)


# ------------------------------------------------------------------ special functions
def need(ex, st, name, goal):
    ex.checks.append((name, st.pc, goal))


def fin(*vs):
    for v in vs:
        if not isinstance(v, Fl):
            raise Unsupported("special function of a non-finite argument")
    return [v.t for v in vs]


def s_ln_beta(ex, st, a, b):
    x, y = fin(a, b)
    need(ex, st, "ln_beta: both arguments positive", conj(lt(ZERO, x), lt(ZERO, y)))
    t = add(fn("lgam", x), fn("lgam", y), neg(fn("lgam", add(x, y))))
    return R(st, Fl(t, ("ln_beta", a.raw, b.raw)))


def s_inc_beta(ex, st, x, p, q, lb, name="incb"):
    if isinstance(x, str):
        raise Unsupported("inc_beta of " + x)
    xx, pp, qq, l = fin(x, p, q, lb)
    want = add(fn("lgam", pp), fn("lgam", qq), neg(fn("lgam", add(pp, qq))))
    need(ex, st, name + ": 0 <= x <= 1, p > 0, q > 0", conj(le(ZERO, xx), le(xx, ONE), lt(ZERO, pp), lt(ZERO, qq)))
    if l is not want:
        need(ex, st, name + ": fourth argument is ln_beta of the shapes", eq(l, want))
    return R(st, Fl(fn(name, xx, pp, qq), (name, x.raw, p.raw, q.raw)))


def s_inv(ex, st, x, p, q, lb):
    return s_inc_beta(ex, st, x, p, q, lb, "iincb")


def s_inc_gamma(ex, st, x, p):
    if x == PINF:
        return R(st, Fl(ONE))
    xx, pp = fin(x, p)
    need(ex, st, "inc_gamma: x >= 0, p > 0", conj(le(ZERO, xx), lt(ZERO, pp)))
    return R(st, Fl(fn("incg", xx, pp), ("incg", x.raw, p.raw)))


def s_ln_gamma(ex, st, x):
    (xx,) = fin(x)
    need(ex, st, "ln_gamma: positive argument", lt(ZERO, xx))
    return R(st, Agg("tuple", None, None, (Fl(fn("lgam", xx), ("lgam", x.raw)), const(1, "I"))))


def s_digamma(ex, st, x):
    (xx,) = fin(x)
    need(ex, st, "digamma: positive argument", lt(ZERO, xx))
    return R(st, Fl(fn("digam", xx), ("digam", x.raw)))


SPEC = {"ln_beta": s_ln_beta, "inc_beta": s_inc_beta, "inv_inc_beta": s_inv, "inc_gamma": s_inc_gamma, "ln_gamma": s_ln_gamma,
        "digamma": s_digamma}


# ------------------------------------------------------------------ sequences
def elem(ex, st, base, i):
    if base == "range":
        return i
    return Ref(base.root, base.path + (("idx", i),))


def stages(ex, st, seq, i):
    """outcomes (state, element | None when filtered out, ok) of pushing index i through the stages"""
    if isinstance(seq.base, Agg):          # zip: both elements
        cur = []
        i0 = sub(i, seq.base.f[2])
        for s, v in side(ex, st, seq.base.f[0], i0):
            cur += [(s2, Agg("tuple", None, None, (v, w))) for s2, w in side(ex, s, seq.base.f[1], i0)]
    else:
        cur = [(st, elem(ex, st, seq.base, i))]
    for kind, arg in seq.stages:
        nxt = []
        for s, v in cur:
            if v is None:
                nxt.append((s, None))
            elif kind == "enumerate":
                nxt.append((s, Agg("tuple", None, None, (sub(i, arg), v))))
            elif kind == "copied":
                nxt.append((s, ex.load(s, v.root, v.path)))
            elif kind == "rev":
                nxt.append((s, v))
            elif kind == "map":
                for o in ex.call_closure(s, arg, [v]):
                    if o.kind != "ret":
                        raise Unsupported("closure does not return")
                    nxt.append((o.st, o.val))
            elif kind == "filter":
                r = ex.heap(s, v)
                for o in ex.call_closure(s, arg, [r]):
                    if o.kind != "ret":
                        raise Unsupported("closure does not return")
                    for s2, t in ex.split(o.st, o.val):
                        nxt.append((s2, v if t else None))
            elif kind == "filter_map":
                for o in ex.call_closure(s, arg, [v]):
                    if o.kind != "ret" or not isinstance(o.val, Agg) or o.val.name != "Option":
                        raise Unsupported("closure does not return")
                    nxt.append((o.st, o.val.f[0] if o.val.f else None))
            else:
                raise Unsupported("stage " + kind)
        cur = nxt
    return cur


def side(ex, st, seq, i):
    """the element of one side of a zip, i steps on"""
    rev = any(k == "rev" for k, _ in seq.stages)
    out = stages(ex, st, seq, sub(sub(seq.end, IONE), i) if rev else add(seq.pos, i))
    if any(v is None for _, v in out):
        raise Unsupported("zip of a filtered sequence")
    return out


def it_zip(ex, st, vals):
    a, b = seq_of(ex, st, vals[0]), seq_of(ex, st, vals[1])
    no_filter(a), no_filter(b)
    n, m = sub(a.end, a.pos), sub(b.end, b.pos)
    z = Agg("zip", "zip", None, (a, b, a.pos))          # counted like the first side
    return [Out("ret", s, Seq(z, a.pos, add(a.pos, n if t else m))) for s, t in ex.split(st, le(n, m))]


def it_skip(ex, st, vals):
    s, m = seq_of(ex, st, vals[0]), vals[1]
    no_filter(s)
    rev = any(k == "rev" for k, _ in s.stages)
    out = []
    for s2, t in ex.split(st, le(m, sub(s.end, s.pos))):
        if rev:
            q = Seq(s.base, s.pos, sub(s.end, m) if t else s.pos, s.stages)
        else:
            q = Seq(s.base, add(s.pos, m) if t else s.end, s.end, s.stages)
        out.append(Out("ret", s2, q))
    return out


def it_take(ex, st, vals):
    s, m = seq_of(ex, st, vals[0]), vals[1]
    no_filter(s)
    rev = any(k == "rev" for k, _ in s.stages)
    out = []
    for s2, t in ex.split(st, le(m, sub(s.end, s.pos))):
        q = s
        if t:
            q = Seq(s.base, sub(s.end, m), s.end, s.stages) if rev else Seq(s.base, s.pos, add(s.pos, m), s.stages)
        out.append(Out("ret", s2, q))
    return out


def it_last(ex, st, vals):
    s = seq_of(ex, st, vals[0])
    no_filter(s)
    rev = any(k == "rev" for k, _ in s.stages)
    out = []
    for s1, more in ex.split(st, lt(s.pos, s.end)):
        if not more:
            out.append(Out("ret", s1, option()))
            continue
        out += [Out("ret", s2, option(v)) for s2, v in stages(ex, s1, s, s.pos if rev else sub(s.end, IONE))]
    return out


def it_find(ex, st, vals):
    seq = seq_of(ex, st, vals[0])
    rev = any(k == "rev" for k, _ in seq.stages)
    j, k = fresh("j", "I"), fresh("pos", "I")
    cj = item_cond(ex, st, seq, j, vals[1], True)
    some, none = st.fork(), st.fork()
    some.assume(conj(le(seq.pos, k), lt(k, seq.end), subst(cj, {j: k})))
    some.assume(forall(j, add(k, IONE), seq.end, neg_b(cj)) if rev else forall(j, seq.pos, k, neg_b(cj)))
    none.assume(forall(j, seq.pos, seq.end, neg_b(cj)))
    out = []
    if ex.sat(some.pc, TRUE):
        out += [Out("ret", s, option(v)) for s, v in stages(ex, some, seq, k) if v is not None and ex.sat(s.pc, TRUE)]
    if ex.sat(none.pc, TRUE):
        out.append(Out("ret", none, option()))
    return out


def seq_of(ex, st, v):
    """Seq value of an iterator-like value; v may be a reference to one"""
    w = v
    if isinstance(w, Ref):
        x = deref(ex, st, w)
        if isinstance(x, (Seq,)):
            return x
        if isinstance(x, (SymVec,)) or isinstance(x, Agg) and x.kind in ("vec", "array"):
            r = w
            while isinstance(ex.load(st, r.root, r.path), Ref):
                r = ex.load(st, r.root, r.path)
            return Seq(r, IZERO, ex.length(x))
        if isinstance(x, Agg) and x.kind == "slice":
            return Seq(x.f[0], x.f[1], add(x.f[1], x.f[2]))
        if isinstance(x, Agg) and x.name == "Range":
            return Seq("range", x.f[0], x.f[1])
        if isinstance(x, Agg) and x.name and x.name.endswith("::RangeFrom"):
            return Seq("range", x.f[0], const(symex.U64, "I"))
        raise Unsupported("iterator %r" % (x,))
    if isinstance(w, Seq):
        return w
    if isinstance(w, Agg) and w.name == "Range":
        return Seq("range", w.f[0], w.f[1])
    if isinstance(w, Agg) and w.name and w.name.endswith("::RangeFrom"):
        return Seq("range", w.f[0], const(symex.U64, "I"))
    if isinstance(w, Agg) and w.name == "RangeInclusive":
        return Seq("range", w.f[0], add(w.f[1], IONE))
    if isinstance(w, SymVec) or isinstance(w, Agg) and w.kind in ("vec", "array"):
        r = ex.heap(st, w)
        return Seq(r, IZERO, ex.length(w), (("copied", None),))
    raise Unsupported("iterator %r" % (w,))


def with_stage(kind):
    def g(ex, st, vals):
        s = seq_of(ex, st, vals[0])
        if kind == "enumerate" and s.stages and any(k in ("filter", "filter_map", "rev") for k, _ in s.stages):
            raise Unsupported("enumerate after filter")
        arg = s.pos if kind == "enumerate" else vals[1] if len(vals) > 1 else None
        return R(st, Seq(s.base, s.pos, s.end, s.stages + ((kind, arg),)))
    return g


def it_next(ex, st, vals):
    r = vals[0]
    while isinstance(ex.load(st, r.root, r.path), Ref):
        r = ex.load(st, r.root, r.path)
    s = seq_of(ex, st, r)
    rev = any(k == "rev" for k, _ in s.stages)
    out = []
    for s1, more in ex.split(st, lt(s.pos, s.end)):
        if not more:
            out.append(Out("ret", s1, option()))
            continue
        i = sub(s.end, IONE) if rev else s.pos
        for s2, v in stages(ex, s1, s, i):
            n = Seq(s.base, s.pos, i, s.stages) if rev else Seq(s.base, add(i, IONE), s.end, s.stages)
            s3 = s2.fork()
            ex.store(s3, r.root, r.path, n)
            if v is None:
                out += it_next(ex, s3, [r])
            else:
                out.append(Out("ret", s3, option(v)))
    return out


def delta(old, new):
    o = set(old)
    return conj(*[p for p in new if p not in o])


def pure_bool(ex, st, clo, args):
    """a boolean closure as one formula (no forking of the caller's state)"""
    r = FALSE
    for o in ex.call_closure(st.fork(), clo, args):
        if o.kind != "ret":
            raise Unsupported("predicate does not return")
        r = disj(r, conj(delta(st.pc, o.st.pc), o.val))
    return r


def item_cond(ex, st, seq, i, clo, byref):
    """formula: the item at index i passes the filters and satisfies clo"""
    s0 = st.fork()
    s0.assume(conj(le(seq.pos, i), lt(i, seq.end)))
    r = FALSE
    for s, v in stages(ex, s0, seq, i):
        if v is None:
            continue
        a = ex.heap(s, v) if byref else v
        r = disj(r, conj(delta(s0.pc, s.pc), pure_bool(ex, s, clo, [a])))
    return r


def no_filter(seq):
    if any(k in ("filter", "filter_map") for k, _ in seq.stages):
        raise Unsupported("position after filter")


def it_position(right):
    def g(ex, st, vals):
        r = vals[0]
        seq = seq_of(ex, st, r)
        no_filter(seq)
        rev = any(k == "rev" for k, _ in seq.stages)
        j, k = fresh("j", "I"), fresh("pos", "I")
        cj = item_cond(ex, st, seq, j, vals[1], False)
        ck = subst(cj, {j: k})
        some, none = st.fork(), st.fork()
        some.assume(conj(le(seq.pos, k), lt(k, seq.end), ck))
        if right != rev:
            some.assume(forall(j, add(k, IONE), seq.end, neg_b(cj)))
        else:
            some.assume(forall(j, seq.pos, k, neg_b(cj)))
        none.assume(forall(j, seq.pos, seq.end, neg_b(cj)))
        out = []
        if ex.sat(some.pc, TRUE):
            out.append(Out("ret", some, option(sub(sub(seq.end, IONE), k) if rev else sub(k, seq.pos) if seq.pos is not IZERO else k)))
        if ex.sat(none.pc, TRUE):
            out.append(Out("ret", none, option()))
        return out
    return g


def it_all(any_):
    def g(ex, st, vals):
        seq = seq_of(ex, st, vals[0])
        j = fresh("j", "I")
        c = item_cond(ex, st, seq, j, vals[1], False)
        if any_:
            b = neg_b(forall(j, seq.pos, seq.end, neg_b(c)))
        else:
            no_filter(seq)
            b = forall(j, seq.pos, seq.end, c)
        return R(st, b)
    return g


def it_fold(ex, st, vals):
    seq, init, clo = seq_of(ex, st, vals[0]), vals[1], vals[2]
    return fold(ex, st, seq, init, lambda s, acc, v: ex.call_closure(s, clo, [acc, v]))


def fold(ex, st, seq, init, step):
    if seq.pos.op == "c" and seq.end.op == "c" and seq.end.a[0] - seq.pos.a[0] <= 64:
        cur = [(st, init)]
        rng = range(int(seq.pos.a[0]), int(seq.end.a[0]))
        if any(k == "rev" for k, _ in seq.stages):
            rng = reversed(rng)
        for i in rng:
            nxt = []
            for s, acc in cur:
                for s2, v in stages(ex, s, seq, const(i, "I")):
                    if v is None:
                        nxt.append((s2, acc))
                        continue
                    for o in step(s2, acc, v):
                        if o.kind != "ret":
                            return [o]
                        nxt.append((o.st, o.val))
            cur = nxt
        return [Out("ret", s, a) for s, a in cur]
    if not isinstance(init, Fl) and init not in (NINF, PINF):
        raise Unsupported("symbolic fold of a non-number")
    j, acc = fresh("j", "I"), fresh("acc")
    if not isinstance(init, Fl):
        return extremum(ex, st, seq, init, step, j, acc)
    s0 = st.fork()
    s0.assume(conj(le(seq.pos, j), lt(j, seq.end)))
    body, raws = ZERO, []
    n0 = len(s0.draws)
    for s, v in stages(ex, s0, seq, j):
        if v is None:
            continue
        for o in step(s, Fl(acc, ("acc",)), v):
            if o.kind != "ret" or not isinstance(o.val, Fl):
                raise Unsupported("fold step")
            if len(o.st.draws) != n0:
                raise Unsupported("fold step draws")
            d = sub(o.val.t, acc)
            dl = delta(s0.pc, o.st.pc)
            if acc in free(d) or acc in free(dl):
                return extremum(ex, st, seq, init, step, j, acc)
            body = d if dl is TRUE else add(body, ite(dl, d, ZERO)) if body is not ZERO else ite(dl, d, ZERO)
            raws.append(o.val.raw)
    jb = fresh("s", "I")
    body = subst(body, {j: jb})
    t = add(init.t, sum_(jb, seq.pos, seq.end, body))
    return R(st, Fl(t, ("sum", init.raw, tuple(raws))))


def extremum(ex, st, seq, init, step, j, acc):
    """a fold that keeps the larger, or the smaller, of the accumulator and the element"""
    s0 = st.fork()
    s0.assume(conj(le(seq.pos, j), lt(j, seq.end)))
    items = []
    sides = {le, ge_}
    for s, v in stages(ex, s0, seq, j):
        if v is None:
            continue
        x = deref(ex, s, v)
        if not isinstance(x, Fl):
            raise Unsupported("fold step")
        items.append((delta(s0.pc, s.pc), x.t))
        for o in step(s, Fl(acc, ("acc",)), v):
            if o.kind != "ret" or not isinstance(o.val, Fl) or len(o.st.draws) != len(s0.draws):
                raise Unsupported("fold step")
            r = o.val.t
            if not ex.valid(o.st.pc, disj(eq(r, acc), eq(r, x.t))):
                raise Unsupported("fold step")
            sides = {f for f in sides if ex.valid(o.st.pc, conj(f(acc, r), f(x.t, r)))}
    if not items or not sides:
        raise Unsupported("fold step is neither acc + term nor the larger or smaller one")
    f = sides.pop()
    out = []
    if isinstance(init, Fl):
        cases = [(st.fork(), True)]
    elif init == (NINF if f is le else PINF) and all(c is TRUE for c, _ in items):
        cases = ex.split(st, lt(seq.pos, seq.end))
    else:
        raise Unsupported("fold of infinities")
    for s, some in cases:
        if not some:
            out.append(Out("ret", s, init))
            continue
        r, k, w = fresh("x"), fresh("j", "I"), fresh("w", "I")
        at = lambda t, i: subst(t, {j: i})
        for c, x in items:
            s.assume(forall(k, seq.pos, seq.end, disj(neg_b(at(c, k)), f(at(x, k), r))))
        one = conj(le(seq.pos, w), lt(w, seq.end), disj(*[conj(at(c, w), eq(r, at(x, w))) for c, x in items]))
        if isinstance(init, Fl):
            s.assume(f(init.t, r))
            s.assume(disj(eq(r, init.t), one))
        else:
            s.assume(one)
        out.append(Out("ret", s, Fl(r, ("item",))))
    return out


def ge_(x, y):
    return le(y, x)


def it_sum(ex, st, vals):
    seq = seq_of(ex, st, vals[0])

    def step(s, acc, v):
        return [Out("ret", s2, x) for s2, x in ex.fbin(s, "Add", acc, deref(ex, s, v))]
    return fold(ex, st, seq, Fl(ZERO), step)


def it_count(ex, st, vals):
    seq = seq_of(ex, st, vals[0])
    no_filter(seq)
    return R(st, ite(lt(seq.pos, seq.end), sub(seq.end, seq.pos), IZERO))


def it_collect(ex, st, vals, head):
    v = vals[0]
    if isinstance(v, Agg) and v.kind == "opaque-iter":
        return R(st, v.f[0])
    seq = seq_of(ex, st, v)
    if seq.pos.op == "c" and seq.end.op == "c":
        cur = [(st, ())]
        for i in range(int(seq.pos.a[0]), int(seq.end.a[0])):
            nxt = []
            for s, acc in cur:
                for s2, x in stages(ex, s, seq, const(i, "I")):
                    nxt.append((s2, acc if x is None else acc + (x,)))
            cur = nxt
        return [Out("ret", s, Agg("vec", None, None, a)) for s, a in cur]
    x = ex.load(st, seq.base.root, seq.base.path) if isinstance(seq.base, Ref) else None
    if isinstance(x, SymVec) and seq.pos is IZERO and seq.end is x.n and all(k == "copied" for k, _ in seq.stages):
        return R(st, x)
    # the positions that a filter lets through
    j, k = fresh("j", "I"), fresh("j", "I")
    s0 = st.fork()
    s0.assume(conj(le(seq.pos, j), lt(j, seq.end)))
    got = [(delta(s0.pc, s.pc), deref(ex, s, v)) for s, v in stages(ex, s0, seq, j) if v is not None]
    if got and all(v is j for _, v in got) and not any(k == "rev" for k, _ in seq.stages):
        cond = disj(*[c for c, _ in got])
        st = st.fork()
        a, last = fresh("m", "A"), fresh("l", "I")
        inside = lambda i: conj(le(seq.pos, i), lt(i, seq.end), subst(cond, {j: i}))
        st.assume(forall(k, IZERO, const(symex.U64, "I"), eq(sel(a, k), ite(inside(k), ONE, ZERO))))
        st.assume(disj(eq(last, const(-1, "I")), inside(last)))
        st.assume(forall(k, add(last, IONE), const(symex.U64, "I"), neg_b(inside(k))))
        st.assume(le(const(-1, "I"), last))
        return R(st, IVec(a, last))
    raise Unsupported("collect")


ITER = {"enumerate": with_stage("enumerate"), "map": with_stage("map"), "filter": with_stage("filter"), "filter_map": with_stage("filter_map"), "rev": with_stage("rev"),
        "copied": with_stage("copied"), "cloned": with_stage("copied"), "next": it_next, "fold": it_fold,
        "position": it_position(False), "rposition": it_position(True), "all": it_all(False), "any": it_all(True), "sum": it_sum,
        "zip": it_zip, "skip": it_skip, "take": it_take, "last": it_last, "find": it_find, "count": it_count, "into_iter": lambda ex, st, vals: R(st, seq_of(ex, st, vals[0])),
        "by_ref": lambda ex, st, vals: R(st, vals[0]), "iter": lambda ex, st, vals: R(st, seq_of(ex, st, vals[0]))}


# ------------------------------------------------------------------ vectors
def bounds(ex, st, i, n, what):
    """(states where i < n, outcomes of the panic)"""
    ok, bad = [], []
    for s, t in ex.split(st, conj(le(IZERO, i), lt(i, n))):
        if t:
            ok.append(s)
        else:
            bad.append(Out("panic", s, "index out of bounds: " + what))
    return ok, bad


def v_index(ex, st, vals):
    r = vals[0]
    while isinstance(ex.load(st, r.root, r.path), Ref):
        r = ex.load(st, r.root, r.path)
    v = ex.load(st, r.root, r.path)
    ok, bad = bounds(ex, st, vals[1], ex.length(v), "vector")
    return [Out("ret", s, Ref(r.root, r.path + (("idx", vals[1]),))) for s in ok] + bad


def vec_ref(ex, st, r):
    while isinstance(ex.load(st, r.root, r.path), Ref):
        r = ex.load(st, r.root, r.path)
    return r, ex.load(st, r.root, r.path)


def v_slice(ex, st, vals):
    """v[a..b]: a view"""
    r, v = vec_ref(ex, st, vals[0])
    n, g = ex.length(v), vals[1]
    name = (g.name or "").split("::")[-1]
    lo, hi = {"Range": lambda: g.f, "RangeFrom": lambda: (g.f[0], n), "RangeTo": lambda: (IZERO, g.f[0]), "RangeFull": lambda: (IZERO, n),
              "RangeInclusive": lambda: (g.f[0], add(g.f[1], IONE)), "RangeToInclusive": lambda: (IZERO, add(g.f[0], IONE))}[name]()
    out = []
    for s, t in ex.split(st, conj(le(IZERO, lo), le(lo, hi), le(hi, n))):
        if not t:
            out.append(Out("panic", s, "slice out of bounds"))
            continue
        s = s.fork()
        base = v.f[0] if isinstance(v, Agg) and v.kind == "slice" else r
        off = add(v.f[1], lo) if isinstance(v, Agg) and v.kind == "slice" else lo
        out.append(Out("ret", s, ex.heap(s, Agg("slice", "slice", None, (base, off, sub(hi, lo))))))
    return out


def v_get(ex, st, vals):
    r, v = vec_ref(ex, st, vals[0])
    if not isinstance(vals[1], T):
        raise Unsupported("get of a range")
    return [Out("ret", s, option(Ref(r.root, r.path + (("idx", vals[1]),))) if t else option())
            for s, t in ex.split(st, conj(le(IZERO, vals[1]), lt(vals[1], ex.length(v))))]


def v_end(last):
    def g(ex, st, vals):
        r, v = vec_ref(ex, st, vals[0])
        n = ex.length(v)
        i = sub(n, IONE) if last else IZERO
        return [Out("ret", s, option(Ref(r.root, r.path + (("idx", i),))) if t else option()) for s, t in ex.split(st, lt(IZERO, n))]
    return g


def v_push(ex, st, vals):
    r = vals[0]
    while isinstance(ex.load(st, r.root, r.path), Ref):
        r = ex.load(st, r.root, r.path)
    v = ex.load(st, r.root, r.path)
    if isinstance(v, IVec):
        e = vals[1]
        if not (isinstance(e, T) and e.s == "I" and ex.valid(st.pc, lt(v.last, e))):
            raise Unsupported("push out of order")
        st = st.fork()
        a, j = fresh("m", "A"), var("j", "I")
        st.assume(forall(j, IZERO, const(symex.U64, "I"), eq(sel(a, j), ite(eq(j, e), ONE, sel(v.arr, j)))))
        ex.store(st, r.root, r.path, IVec(a, e))
        return R(st, UNIT)
    if isinstance(v, SymVec):
        if not isinstance(vals[1], Fl):
            raise Unsupported("push to a vector of doubles")
        st = st.fork()
        a, j = fresh("v", "A"), var("j", "I")
        st.assume(forall(j, IZERO, v.n, eq(sel(a, j), sel(v.arr, j))))
        st.assume(eq(sel(a, v.n), vals[1].t))
        ex.store(st, r.root, r.path, SymVec(a, add(v.n, IONE)))
        return R(st, UNIT)
    if not (isinstance(v, Agg) and v.kind == "vec"):
        raise Unsupported("push to a symbolic vector")
    st = st.fork()
    ex.store(st, r.root, r.path, Agg("vec", None, None, v.f + (vals[1],)))
    return R(st, UNIT)


# ------------------------------------------------------------------ dispatch
def call(ex, st, head, vals):
    m = re.match(r"<(.+?) as (?:special|core::num|source|random)::(?:Primitive|Float)>::(\w+)$", head) or \
        re.match(r"(?:core|std)::f64::(?:\w+::)?<impl (f64)>::(\w+)$", head) or \
        re.match(r"<(f64) as special::(?:Error|Gamma|Beta)>::(\w+)$", head) or \
        re.match(r"<(&?f64) as core::(?:ops|cmp)::(?:\w+::)*(?:Add|Sub|Mul|Div|Neg|PartialOrd|PartialEq)(?:<.*>)?>::(\w+)$", head)
    if m:
        n = m.group(2)
        vs = [deref(ex, st, v) for v in vals]
        if n in SPEC:
            return SPEC[n](ex, st, *vs)
        if n in UN and len(vs) == 1:
            return UN[n](ex, st, *vs)
        if n == "powi":
            return f_powi(ex, st, *vs)
        if n == "clamp":
            return f_clamp(ex, st, *vs)
        if n == "mul_add":
            return f_mul_add(ex, st, *vs)
        if n in BIN and len(vs) == 2:
            return BIN[n](ex, st, *vs)
        return None
    m = re.match(r"<\w+ as (?:random|source)::Source>::read::<(\w+)>$", head)
    if m:
        src = vals[0] if vals else None
        while isinstance(src, Ref):
            src = ex.load(st, src.root, src.path)
        if isinstance(src, Agg) and not (src.kind == "opaque" and src.name in ("source", "S")):
            raise Unsupported("read from another source")
        st = st.fork()
        if m.group(1) == "f64":
            u = fresh("u")
            st.draws += (("u", u),)
            st.assume(conj(lt(ZERO, u), lt(u, ONE)))
            return R(st, Fl(u, ("leaf", u)))
        if m.group(1) in ("u64", "u32"):
            w = fresh("w", "I")
            st.draws += (("w", w),)
            st.assume(conj(le(IZERO, w), lt(w, const(2 ** int(m.group(1)[1:]), "I"))))
            return R(st, w)
        return None
    if head == "<D as distribution::Sample>::sample::<S>":
        st = st.fork()
        v = Agg("opaque", "item", len(st.events), ())
        st.events += (("Sample::sample", tuple(vals), v),)
        return R(st, v)
    # ranges
    m = re.match(r"core::ops::(?:range::)?RangeInclusive::<(\w+)>::(new|contains::<\w+>|start|end)$", head)
    if m:
        if m.group(2) == "new":
            return R(st, Agg("adt", "RangeInclusive", None, vals))
        r = deref(ex, st, vals[0])
        if m.group(2).startswith("contains"):
            x = deref(ex, st, vals[1])
            if isf(x):
                b1, b2 = fcmp("Le", r.f[0], x), fcmp("Le", x, r.f[1])
            else:
                b1, b2 = le(r.f[0], x), le(x, r.f[1])
            return R(st, conj(b1, b2))
    m = re.match(r"core::ops::(?:range::)?Range::<(\w+)>::contains::<\w+>$", head)
    if m:
        r, x = deref(ex, st, vals[0]), deref(ex, st, vals[1])
        return R(st, conj(fcmp("Le", r.f[0], x), fcmp("Lt", x, r.f[1])) if isf(x) else conj(le(r.f[0], x), lt(x, r.f[1])))
    # vectors and slices
    m = re.match(r"<alloc::vec::Vec<[\w ]+> as core::(?:ops|clone|convert|borrow)::\w+(?:<.*>)?>::(\w+)$", head) or \
        re.match(r"alloc::(?:vec::Vec::<[\w ]+>|slice::<impl \[\w+\]>)::(\w+)$", head) or \
        re.match(r"core::slice::<impl \[\w+\]>::(\w+)(?:::<\w+>)?$", head) or re.match(r"<\[\w+\] as core::ops::\w+<.*>>::(\w+)$", head) or \
        re.match(r"(?:std|alloc)::vec::from_elem::<\w+>()$", head)
    if m:
        n = m.group(1)
        if n in ("deref", "deref_mut", "as_slice", "as_ref", "as_mut_slice", "borrow"):
            return R(st, vals[0])
        if n in ("clone", "to_vec"):
            v = deref(ex, st, vals[0])
            if isinstance(v, Agg):
                v = Agg("vec", None, None, v.f)
            return R(st, v)
        if n in ("index", "index_mut"):
            if isinstance(vals[1], T):
                return v_index(ex, st, vals)
            if isinstance(vals[1], Agg) and (vals[1].name or "").split("::")[-1].startswith("Range"):
                return v_slice(ex, st, vals)
            return None
        if n == "get":
            return v_get(ex, st, vals)
        if n in ("first", "last"):
            return v_end(n == "last")(ex, st, vals)
        if n == "len":
            return R(st, ex.length(deref(ex, st, vals[0])))
        if n == "is_empty":
            return R(st, eq(ex.length(deref(ex, st, vals[0])), IZERO))
        if n in ("new", "with_capacity"):
            return R(st, Agg("vec", None, None, ()))
        if n == "push":
            return v_push(ex, st, vals)
        if n == "clear":
            st = st.fork()
            r = vals[0]
            while isinstance(ex.load(st, r.root, r.path), Ref):
                r = ex.load(st, r.root, r.path)
            ex.store(st, r.root, r.path, Agg("vec", None, None, ()))
            return R(st, UNIT)
        if n in ("iter",):
            return R(st, seq_of(ex, st, vals[0]))
        if n in ("into_vec",):
            return R(st, vals[0])
        return None
    m = re.match(r"alloc::boxed::Box::<\[(\w+); (\d+)\]>::new_uninit$", head)
    if m:
        st = st.fork()
        return R(st, Agg("box", None, None, (ex.heap(st, Agg("uninit", None, None, ())),)))
    if head.startswith("alloc::boxed::box_assume_init_into_vec_unsafe::<"):
        b = vals[0]
        v = ex.load(st, b.f[0].root, b.f[0].path)
        return R(st, Agg("vec", None, None, v.f))
    # iterators
    m = re.match(r"<(core::(?:iter|slice|ops|option)::.*|<T as core::iter::IntoIterator>::IntoIter|T|&\w+|&alloc::vec::Vec<\w+>|&\[\w+\]|alloc::vec::.*) as core::iter::(?:\w+::)*"
                 r"(?:Iterator|IntoIterator|DoubleEndedIterator|ExactSizeIterator)>::(\w+)(?:::<.*>)?$", head)
    if m:
        n = m.group(2)
        if m.group(1) == "T" and n == "into_iter":
            return R(st, vals[0])
        if n == "collect":
            return it_collect(ex, st, vals, head)
        if n in ITER:
            if isinstance(vals[0], Agg) and vals[0].kind == "opaque-iter":
                raise Unsupported("iterating an opaque iterator")
            return ITER[n](ex, st, vals)
        return None
    # options
    m = re.match(r"core::option::Option::<.*?>::(\w+)(?:::<.*>)?$", head)
    if m:
        n, o = m.group(1), vals[0]
        if not (isinstance(o, Agg) and o.name == "Option"):
            raise Unsupported("option %r" % (o,))
        some = o.variant == 1
        if n in ("unwrap", "expect"):
            return R(st, o.f[0]) if some else [Out("panic", st, "unwrap of None")]
        if n == "unwrap_or":
            return R(st, o.f[0] if some else vals[1])
        if n == "unwrap_or_else":
            return R(st, o.f[0]) if some else ex.call_closure(st, vals[1], [])
        if n == "is_some":
            return R(st, TRUE if some else FALSE)
        if n == "is_none":
            return R(st, FALSE if some else TRUE)
        if n == "map":
            if not some:
                return R(st, option())
            return [Out(x.kind, x.st, option(x.val) if x.kind == "ret" else x.val) for x in ex.call_closure(st, vals[1], [o.f[0]])]
        if n == "map_or":
            return ex.call_closure(st, vals[2], [o.f[0]]) if some else R(st, vals[1])
        if n == "map_or_else":
            return ex.call_closure(st, vals[2], [o.f[0]]) if some else ex.call_closure(st, vals[1], [])
        if n == "and_then":
            return ex.call_closure(st, vals[1], [o.f[0]]) if some else R(st, option())
        if n == "or":
            return R(st, o if some else vals[1])
        if n == "or_else":
            return R(st, o) if some else ex.call_closure(st, vals[1], [])
        if n == "is_some_and":
            return ex.call_closure(st, vals[1], [o.f[0]]) if some else R(st, FALSE)
        if n == "filter":
            if not some:
                return R(st, option())
            st = st.fork()
            ref = ex.heap(st, o.f[0])
            return [Out("ret", s2, o if t else option()) for x in ex.call_closure(st, vals[1], [ref]) if x.kind == "ret" for s2, t in ex.split(x.st, x.val)] + \
                [x for x in ex.call_closure(st, vals[1], [ref]) if x.kind != "ret"]
        if n in ("copied", "cloned"):
            return R(st, option(deref(ex, st, o.f[0])) if some else o)
        return None
    # integers
    m = re.match(r"<u(?:size|8|16|32|64) as core::(?:clone::Clone|cmp::(?:Ord|PartialOrd|PartialEq)(?:<.*>)?)>::(\w+)$", head)
    if m:
        n, vs = m.group(1), [deref(ex, st, v) for v in vals]
        if n == "clone":
            return R(st, vs[0])
        if n in ("min", "max"):
            return [Out("ret", s, (vs[0] if t else vs[1]) if n == "min" else (vs[1] if t else vs[0]))
                    for s, t in ex.split(st, le(vs[0], vs[1]))]
        if n in ("lt", "le", "gt", "ge", "eq", "ne"):
            a, b = vs
            return R(st, {"lt": lambda: lt(a, b), "le": lambda: le(a, b), "gt": lambda: lt(b, a), "ge": lambda: le(b, a),
                          "eq": lambda: eq(a, b), "ne": lambda: ne(a, b)}[n]())
        if n == "cmp":
            out = []
            for s, e in ex.split(st, eq(*vs)):
                if e:
                    out.append(Out("ret", s, ordering(0)))
                    continue
                for s2, l in ex.split(s, lt(*vs)):
                    out.append(Out("ret", s2, ordering(-1 if l else 1)))
            return out
        return None
    m = re.match(r"core::num::<impl (u\w+)>::(\w+)$", head)
    if m:
        n = m.group(2)
        if n == "saturating_sub":
            return [Out("ret", s, sub(vals[0], vals[1]) if t else IZERO) for s, t in ex.split(st, le(vals[1], vals[0]))]
        if n == "saturating_add":
            top = const(symex.RANGE[m.group(1)][1], "I")
            t = add(vals[0], vals[1])
            return [Out("ret", s, t if ok else top) for s, ok in ex.split(st, le(t, top))]
        if n == "checked_sub":
            return [Out("ret", s, option(sub(vals[0], vals[1])) if t else option()) for s, t in ex.split(st, le(vals[1], vals[0]))]
        if n == "checked_add":
            top = const(symex.RANGE[m.group(1)][1], "I")
            t = add(vals[0], vals[1])
            return [Out("ret", s, option(t) if ok else option()) for s, ok in ex.split(st, le(t, top))]
        if n == "abs_diff":
            return [Out("ret", s, sub(vals[0], vals[1]) if t else sub(vals[1], vals[0])) for s, t in ex.split(st, le(vals[1], vals[0]))]
        if n == "is_multiple_of" and vals[1].op == "c":
            return R(st, eq(mk("imod", vals[0], vals[1], s="I"), IZERO))
        return None
    m = re.match(r"core::bool::<impl bool>::(then|then_some)::<.*>$", head)
    if m:
        out = []
        for s, t in ex.split(st, vals[0]):
            if not t:
                out.append(Out("ret", s, option()))
            elif m.group(1) == "then_some":
                out.append(Out("ret", s, option(vals[1])))
            else:
                out += [Out(x.kind, x.st, option(x.val) if x.kind == "ret" else x.val) for x in ex.call_closure(s, vals[1], [])]
        return out
    m = re.match(r"<f64 as core::clone::Clone>::clone$", head)
    if m:
        return R(st, deref(ex, st, vals[0]))
    # closures
    m = re.match(r"<\{closure@.*\} as core::ops::(?:function::)?(?:Fn|FnMut|FnOnce)<.*>>::(?:call|call_mut|call_once)$", head)
    if m:
        a = vals[1]
        return ex.call_closure(st, vals[0], list(a.f))
    if head == "<Self as distribution::Variance>::variance":
        c = getattr(ex, "self_variance", None)
        if c:
            return c(ex, st, head, vals)
    if re.match(r"core::mem::(drop|forget)::<.*>$|core::hint::black_box", head):
        return R(st, UNIT)
    if re.match(r"<(\w+) as core::convert::(From|Into)<\w+>>::(from|into)$", head):
        m = re.match(r"<(\w+) as core::convert::(?:From<(\w+)>>::from|Into<(\w+)>>::into)$", head)
        if m:
            to, fr = (m.group(1), m.group(2)) if m.group(2) else (m.group(3), m.group(1))
            v = vals[0]
            if to == "f64" and isinstance(v, T) and v.s == "I":
                return R(st, Fl(i2r(v), ("i2r", v)))
            if to == "f64" and isf(v) or to != "f64" and isinstance(v, T):
                return R(st, v)
    return None
