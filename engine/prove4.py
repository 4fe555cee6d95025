"""Sampling (C12, C13), related families (C16) and small probabilities (C19)."""
import time
from fractions import Fraction as Q
import mpmath as mp
import specs, smt, canon, symex, prove2, prove3, world
from canon import Canon
from lemmas import *
from specs import FAM, PINF, NINF
from symex import Unsupported, Fl, Agg
from term import *
from prove3 import contracts, lemma, eq_lemma, cells

X, P_, K_ = specs.x_, specs.p_, specs.k_
HALF = const(Q(1, 2))


def draws_of(p, F):
    key = ("sample run", F.name)
    if key not in p.done:
        try:
            p.done[key] = prove2.run_sample(p, F)
        except Unsupported as e:
            p.done[key] = e
    return p.done[key]


def kernel(p, name):
    key = ("kernel", name)
    if key not in p.done:
        for n, args, pre, call in prove2.KERNELS:
            if n == name:
                try:
                    p.done[key] = prove2.run_free(p, n, args, pre)
                except Unsupported as e:
                    p.done[key] = e
    return p.done[key]


# ------------------------------------------------------------------ C13
def C13(p):
    for F in FAM.values():
        base = "%s::sample" % F.name
        r = draws_of(p, F)
        if isinstance(r, Unsupported):
            p.lost(base, r, F, "sample")
            continue
        ex, outs, src = r
        n = 0
        for i, o in enumerate(outs):
            pc, nm = list(o.st.pc), "%s/path%d" % (base, i)
            if o.kind == "panic":
                p.ob(nm + " cannot panic", p.dead(pc), F, "sample", pc, str(o.val))
            if o.kind != "ret" or not sat(pc):
                continue
            n += 1
            v = o.val
            lo, hi = F.support
            if F.discrete:
                if not isinstance(v, T):
                    p.ob(nm + " returns an outcome", ("open", "refuted"), F, "sample", pc, repr(v))
                    continue
                p.goal(nm + ": in the support", pc, conj(le(IZERO, v), le(v, unreal(hi))), F, "sample")
                if F.fam == "Categorical":
                    p.goal(nm + ": an outcome of positive probability", pc, lt(ZERO, sel(specs.pk, v)), F, "sample")
            else:
                p.ob(nm + ": finite", ("proved", "extended reals") if isinstance(v, Fl) else ("open", "refuted"), F, "sample", pc, repr(v))
                if not isinstance(v, Fl):
                    continue
                for g in ([le(lo, v.t)] if not isinstance(lo, str) else []) + ([le(v.t, hi)] if not isinstance(hi, str) else []):
                    p.goal(nm + ": in the support", pc, g, F, "sample")
            reads_only(p, nm, F, o)
        if n == 0:
            p.ob(base + "/returns", ("open", ""), F, "sample")
        for nm, pc, goal in ex.checks:
            p.goal("%s/requires: %s" % (base, nm), list(pc), goal, F, "sample")
    if p.tier == "thorough":
        # the contract of the quantile function that sampling relies on (discharged by C05 and C06 in any case)
        for F in (FAM["Binomial"], FAM["Binomial.with_failure"], FAM["Categorical"]):
            prove3.discrete_inverse(p, F, False)
    for name in ("distribution::gamma::sample", "distribution::gamma::sample_ln", "distribution::gaussian::sample"):
        r = kernel(p, name)
        if isinstance(r, Unsupported):
            p.lost(name, r)
            continue
        ex, outs = r
        short = name.split("distribution::")[-1]
        for i, o in enumerate(outs):
            pc, nm = list(o.st.pc), "%s/path%d" % (short, i)
            if o.kind == "panic":
                p.ob(nm + " cannot panic", p.dead(pc), None, None, pc, str(o.val))
            if o.kind != "ret" or not sat(pc):
                continue
            p.ob(nm + ": finite", ("proved", "extended reals") if isinstance(o.val, Fl) else ("open", "refuted"), None, None, pc, repr(o.val))
            if short == "gamma::sample" and isinstance(o.val, Fl):
                p.goal(nm + ": positive", pc, lt(ZERO, o.val.t))
        for nm, pc, goal in ex.checks:
            p.goal("%s/requires: %s" % (short, nm), list(pc), goal)


def reads_only(p, nm, F, o):
    """the executor stops at anything but arithmetic, contracts and reads of the given source, so a finished path
    is a function of the object and the words read"""
    ok = all(d[0] in ("u", "w", "gauss", "gamma") for d in o.st.draws) and all(e[0] == "inverse" for e in o.st.events)
    p.ob(nm + ": a function of the object and the words read", ("proved", "symbolic execution") if ok else ("open", ""), F, "sample")


# ------------------------------------------------------------------ C12
def C12(p):
    for F in FAM.values():
        contracts(p, F, "distribution")
        base = "%s::sample" % F.name
        r = draws_of(p, F)
        if isinstance(r, Unsupported):
            p.lost(base, r, F, "sample")
            continue
        ex, outs, src = r
        rets = []
        for i, o in enumerate(outs):
            if o.kind in ("ret", "retry") and sat(list(o.st.pc)):
                rets.append((i, o))
        for i, o in rets:
            if o.kind == "retry":
                # trying again is allowed on an event of probability zero
                null = any(b.op == "eq" and any(d[1] in b.a and (b.a[0].op == "c" or b.a[1].op == "c") for d in o.st.draws) for b in o.st.pc)
                p.ob("%s/path%d tries again only on an event of probability zero" % (base, i), ("proved", "syntactic") if null else ("open", ""), F, "sample", o.st.pc)
        rets = [(i, o) for i, o in rets if o.kind == "ret"]
        if not rets:
            p.ob(base + "/returns", ("open", ""), F, "sample")
            continue
        kinds = {tuple(d[0] for d in o.st.draws) for i, o in rets}
        if len(kinds) != 1:
            p.ob(base + "/kinds of draws", ("open", "unsupported"), F, "sample", (), str(kinds))
            continue
        k = kinds.pop()
        h = {("u",): inversion, ("gauss",): gaussian_map, ("gauss", "gauss"): gaussian_ratio, ("gamma",): gamma_map,
             ("gamma", "gamma"): gamma_share}.get(k)
        if h is None:
            p.ob(base + "/draws", ("open", "unsupported"), F, "sample", (), str(k))
            continue
        if h is inversion and F.discrete:
            h = discrete_inversion
        lemma(p, base + "/law", lambda: h(p, F, base, rets), F)
    if p.tier == "thorough":
        # the contract of the quantile function that sampling relies on (discharged by C05 and C06 in any case)
        for F in (FAM["Binomial"], FAM["Binomial.with_failure"], FAM["Categorical"]):
            prove3.discrete_inverse(p, F, True)
    marsaglia_tsang(p)
    log_gamma(p)
    ziggurat(p)


def cdf_at(p, F, pc, v):
    """[(facts, value)] of the CDF at the term v"""
    out = []
    for pD, oD, D, j in regions(F.m["distribution"], pc, X):
        q = flat([subst(g, {X: v}) for g in pD])
        if sat(q, 3000):
            out.append((q, subst(D, {X: v}), j))
    return out


def oriented(p, F, rets, want):
    """the first alternative (a function of a path's draws) equal to the CDF at the value on every path, else None"""
    for alt in want:
        ok = True
        for i, o in rets:
            for pc, D, j in cdf_at(p, F, list(o.st.pc), o.val.t):
                try:
                    ok = ok and Canon(pc).equal(D, alt(o.st.draws))
                except (canon.CanonError, RecursionError, ZeroDivisionError):
                    ok = False
                if not ok:
                    break
            if not ok:
                break
        if ok:
            return alt
    return want[0]


def inversion(p, F, base, rets):
    alt = oriented(p, F, rets, [lambda d: d[0][1], lambda d: sub(ONE, d[0][1])])
    for i, o in rets:
        n = 0
        for pc, D, j in cdf_at(p, F, list(o.st.pc), o.val.t):
            n += 1
            u = alt(o.st.draws)
            p.eq("%s/path%d: CDF case %d at the value is %s" % (base, i, j, "the uniform number" if u.op == "v" else "its complement"),
                 pc, D, u, F, "sample")
        p.goal("%s/path%d: within the CDF" % (base, i), [], TRUE if n else FALSE, F, "sample")


def discrete_inversion(p, F, base, rets):
    for u_of, tag in ((lambda d: d[0][1], ""), (lambda d: sub(ONE, d[0][1]), " (complement)")):
        goals = []
        for i, o in rets:
            pc0, r, u = list(o.st.pc), o.val, u_of(o.st.draws)
            big = F.fam == "Binomial"
            for sl, pc in ((0, pc0 + ([neg_b(world.early(F))] if big else [])), (1, pc0 + [world.early(F)] if big else None)):
                if pc is None:
                    continue
                hi = add(r, const(sl, "I"))
                lo = sub(r, IONE)
                note = ", or the next outcome's" if sl else ""
                if F.fam == "Categorical":
                    goals.append(("%s/path%d: the uniform number%s is at most the CDF" % (base, i, tag), pc, le(u, sel(specs.sa, r))))
                    goals.append(("%s/path%d: and at least the CDF one outcome before" % (base, i), pc + [lt(IZERO, r)], le(sel(specs.sa, lo), u)))
                    continue
                for c1, D, j in cells(F, pc, hi):
                    goals.append(("%s/path%d: the uniform number%s is at most CDF case %d%s" % (base, i, tag, j, note), c1, le(u, D)))
                for c1, D, j in cells(F, pc, lo):
                    goals.append(("%s/path%d: and at least CDF case %d one outcome before%s" % (base, i, j, note), c1, le(D, u)))
        if tag == "" and any(smt.check(pc + [neg_b(g)], 300) == "sat" for _, pc, g in goals):
            first = goals
            continue
        break
    for nm, pc, g in goals:
        p.goal(nm, pc, g, F, "sample")


def gaussian_map(p, F, base, rets):
    phi = lambda z: mul(HALF, add(ONE, fn("erf", div(z, sqrt(const(2))))))
    alt = oriented(p, F, rets, [lambda d: phi(d[0][1]), lambda d: phi(neg(d[0][1]))])
    for i, o in rets:
        for pc, D, j in cdf_at(p, F, list(o.st.pc), o.val.t):
            p.eq("%s/path%d: CDF case %d at the value is the normal CDF at the standard gaussian" % (base, i, j), pc, D, alt(o.st.draws), F, "sample")
        p.ob("%s/path%d: unconditional" % (base, i), ("proved", "syntactic") if free_of(o) else ("open", ""), F, "sample")


def free_of(o, but=()):
    """no path condition beyond the range of the draws themselves concerns a draw"""
    ds = {d[1] for d in o.st.draws} - set(but)
    for b in o.st.pc:
        if free(b) & ds and not (b.op == "lt" and b.a[0] is ZERO and b.a[1] in ds) and not (b.op == "not"):
            return False
    return True


def gaussian_ratio(p, F, base, rets):
    """Cauchy: the ratio of independent standard gaussians is standard Cauchy (textbook)"""
    p.trust('the ratio of two independent standard gaussians is standard Cauchy')
    W = var("ratio")
    loc, sc = F.loc
    for pc, D, j in cdf_at(p, F, p.W.pre(F), add(loc, mul(sc, W))):
        p.eq("lemma %s: CDF case %d is that of the scaled ratio" % (F.name, j), pc, D, add(HALF, div(fn("atan", W), PI)), F)
    # one of the two keeps its symmetric law on every path: only the other's sign is consulted
    for top in (0, 1):
        if all(free_of(o, (o.st.draws[1 - top][1],)) for i, o in rets):
            break
    for i, o in rets:
        z1, z2 = o.st.draws[top][1], o.st.draws[1 - top][1]
        r = div(sub(o.val.t, loc), sc)
        pc = list(o.st.pc)
        for c in (div(z1, z2), neg(div(z1, z2))):
            if Canon(pc).equal(r, c):
                break
        p.eq("%s/path%d: the ratio of the gaussians, scaled and shifted" % (base, i), pc, o.val.t, add(loc, mul(sc, c)), F, "sample")
        p.ob("%s/path%d: the numerator stays symmetric" % (base, i), ("proved", "syntactic") if free_of(o, (z2,)) else ("open", ""), F, "sample")


def gamma_map(p, F, base, rets):
    for i, o in rets:
        d = o.st.draws[0]
        for pc, D, j in cdf_at(p, F, list(o.st.pc), o.val.t):
            p.eq("%s/path%d: CDF case %d at the value is the standard gamma CDF" % (base, i, j), pc, D, fn("incg", d[1], d[2]), F, "sample")
        p.ob("%s/path%d: unconditional" % (base, i), ("proved", "syntactic") if free_of(o) else ("open", ""), F, "sample")


def gamma_share(p, F, base, rets):
    """the share of one of two independent gammas is beta (textbook)"""
    p.trust('X / (X + Y) is beta(a, b) for independent X ~ gamma(a), Y ~ gamma(b)')
    a, b = F.support
    al, be = F.acc["alpha"], F.acc["beta"]
    for i, o in rets:
        (_, g1, k1), (_, g2, k2) = o.st.draws
        pc = list(o.st.pc)
        if not Canon(pc).equal(k1, al):
            g1, k1, g2, k2 = g2, k2, g1, k1
        p.eq("%s/path%d: one gamma has the first shape" % (base, i), pc, k1, al, F, "sample")
        p.eq("%s/path%d: the other has the second" % (base, i), pc, k2, be, F, "sample")
        p.eq("%s/path%d: the share of the first, scaled and shifted" % (base, i), pc, o.val.t, add(a, mul(sub(b, a), div(g1, add(g1, g2)))), F, "sample")
        p.ob("%s/path%d: unconditional" % (base, i), ("proved", "syntactic") if free_of(o) else ("open", ""), F, "sample")
    Zb = var("share")
    for pc, D, j in cdf_at(p, F, p.W.pre(F) + [lt(ZERO, Zb), lt(Zb, ONE)], add(a, mul(sub(b, a), Zb))):
        p.eq("lemma %s: CDF case %d is that of the scaled share" % (F.name, j), pc, D, fn("incb", Zb, al, be), F)


# ------------------------------------------------------------------ the gamma sampler
def marsaglia_tsang(p):
    """k >= 1: y = d (1 + c x)^3 with x gaussian, d = k - 1/3, c = 1 / (3 sqrt d), accepted with probability
    exp(x^2/2 + d (1 - v + ln v)); k < 1: the draw for k + 1 times u^(1/k)"""
    p.trust('rejection sampling: proposals of density g accepted with probability f / (c g) have density f; G_{k+1} U^{1/k} is gamma(k) for k < 1')
    base = "gamma::sample"
    r = kernel(p, "distribution::gamma::sample")
    if isinstance(r, Unsupported):
        return p.lost(base, r)
    ex, outs = r
    k = prove2.kk
    d = sub(k, const(Q(1, 3)))
    c = div(const(Q(1, 3)), sqrt(d))
    n = {"accept": 0, "reject": 0, "boost": 0}
    for i, o in enumerate(outs):
        if o.kind not in ("ret", "retry") or not sat(list(o.st.pc)):
            continue
        nm, pc = "%s/path%d" % (base, i), list(o.st.pc)
        kinds = tuple(x[0] for x in o.st.draws)
        if kinds == ("gamma", "u"):
            n["boost"] += 1
            g, u = o.st.draws[0], o.st.draws[1][1]
            p.eq(nm + ": the inner gamma has one more", pc, g[2], add(k, ONE))
            p.eq(nm + ": times the power of the uniform number", pc, o.val.t, mul(g[1], fn("exp", div(fn("ln", u), k))))
            p.goal(nm + ": only below one", pc, lt(k, ONE))
            continue
        if kinds[:1] != ("gauss",):
            p.ob(nm + ": draws", ("open", "unsupported"), note=str(kinds))
            continue
        x = o.st.draws[0][1]
        v1 = add(ONE, mul(c, x))
        if kinds == ("gauss",):
            p.goal(nm + ": rejects at once only where the cube is not positive", pc, conj(TRUE if o.kind == "retry" else FALSE, le(v1, ZERO)))
            n["reject"] += 1
            continue
        if kinds != ("gauss", "u"):
            p.ob(nm + ": draws", ("open", "unsupported"), note=str(kinds))
            continue
        u = o.st.draws[1][1]
        # ln v with v = v1^3
        bound = add(mul(HALF, power(x, 2)), mul(d, add(ONE, neg(power(v1, 3)), mul(const(3), fn("ln", v1)))))
        squeeze = sub(ONE, mul(const(Q(331, 10000)), power(x, 4)))
        p.goal(nm + ": the cube is positive", pc, lt(ZERO, v1))
        facts = pc + [lt(ZERO, v1)]
        if o.kind == "retry":
            n["reject"] += 1
            bounded(p, nm + ": rejects only above the acceptance probability", facts, u, bound, squeeze, False)
            continue
        n["accept"] += 1
        p.eq(nm + ": the accepted value", facts, o.val.t, mul(d, power(v1, 3)))
        bounded(p, nm + ": accepts only below the acceptance probability", facts, u, bound, squeeze, True)
    p.goal(base + ": proposals are accepted, rejected and boosted", [], TRUE if n["accept"] and n["reject"] and n["boost"] else FALSE)
    # the acceptance probability turns the gaussian proposal into the gamma law
    x = var("zz")
    v1, inside = add(ONE, mul(c, x)), [le(ONE, k), lt(ZERO, add(ONE, mul(c, x)))]
    y = mul(d, power(v1, 3))
    lnacc = add(mul(HALF, power(x, 2)), mul(d, add(ONE, neg(power(v1, 3)), mul(const(3), fn("ln", v1)))))
    # ln of (gamma density at y) (dy/dx) and of (gaussian density at x) (acceptance at x) differ by a constant
    lhs = add(mul(sub(k, ONE), logdiff_(y, x)), neg(diff(y, x)), logdiff_(mul(d, const(3), c, power(v1, 2)), x))
    p.eq("lemma gamma::sample: accepted proposals have the gamma density", inside, lhs, sub(diff(lnacc, x), x))
    # ln(acceptance) is 0 at x = 0 and falls away from it
    p.eq("lemma gamma::sample: acceptance is one at the centre", [le(ONE, k)], subst(lnacc, {x: ZERO}), ZERO)
    s = var("sd")                # sqrt(d)
    w = add(ONE, div(x, mul(const(3), s)))
    g = add(x, mul(power(s, 2), add(neg(mul(const(3), power(w, 2), div(ONE, mul(const(3), s)))), div(const(3), mul(mul(const(3), s), w)))))
    p.eq("lemma gamma::sample: its slope", inside + [lt(ZERO, s), eq(power(s, 2), d)], subst(diff(lnacc, x), {sqrt(d): s}), subst(g, {}))
    t = add(mul(const(3), s), x)
    # slope times 9 s^2 w = -(x^2 (9 s + 2 x)/...) has the sign opposite to x
    pos = [lt(ZERO, s), lt(ZERO, t)]
    num = Canon(pos)
    e = num.term(num.conv(mul(g, t)))
    p.goal("lemma gamma::sample: acceptance rises before the centre", pos + [lt(x, ZERO)], lt(ZERO, e))
    p.goal("lemma gamma::sample: acceptance falls after the centre", pos + [lt(ZERO, x)], lt(e, ZERO))


def logdiff_(f, v):
    from prove3 import logdiff
    return logdiff(f, v)


SQUEEZE = "Marsaglia and Tsang (2000): 1 - 0.0331 x^4 < exp(x^2/2 + d (1 - v + ln v)) for every x with v > 0, k >= 1"


def bounded(p, nm, pc, u, bound, squeeze, accept):
    """u against the acceptance probability exp(bound), knowing the squeeze bound below it"""
    t0 = time.time()
    lu, b = fn("ln", u), var("lnacc")
    # normalise the logarithm of the cube in the path's comparisons
    q = []
    for g in pc:
        if g.op in ("lt", "le") and any(fnof(h, "ln") for h in g.a):
            try:
                cn = Canon([h for h in pc if h is not g])
                other = None
                rel, gap = (lt if g.op == "lt" else le), sub(g.a[1], g.a[0])
                if cn.equal(gap, sub(bound, lu)):
                    other = rel(ZERO, sub(b, lu))
                elif cn.equal(gap, sub(lu, bound)):
                    other = rel(ZERO, sub(lu, b))
                if other is not None:
                    q.append(other)
                    continue
            except (canon.CanonError, RecursionError, ZeroDivisionError):
                pass
        q.append(g)
    e = var("acceptance")
    # e = exp(b): the exponential is increasing
    facts = q + [lt(ZERO, e), lt(squeeze, e), disj(le(b, lu), lt(u, e)), disj(le(lu, b), lt(e, u)), disj(ne(lu, b), eq(u, e))]
    p.used.add("squeeze inequality")
    p.ob(nm, p.prove(facts, le(u, e) if accept else le(e, u)), None, None, pc, show(bound)[:200], t0)


def fnof(t, op):
    return isinstance(t, T) and (t.op == op or any(fnof(u, op) for u in t.a))


def flat_add(t):
    return t.a if t.op == "+" else (t,)


def log_gamma(p):
    base = "gamma::sample_ln"
    r = kernel(p, "distribution::gamma::sample_ln")
    if isinstance(r, Unsupported):
        return p.lost(base, r)
    ex, outs = r
    k = prove2.kk
    for i, o in enumerate(outs):
        pc, nm = list(o.st.pc), "%s/path%d" % (base, i)
        if o.kind != "ret" or not sat(pc):
            continue
        ds = o.st.draws
        kinds = tuple(x[0] for x in ds)
        if kinds == ("gamma",):
            p.eq(nm + ": the shape", pc, ds[0][2], k)
            p.eq(nm + ": the logarithm of the draw", pc, o.val.t, fn("ln", ds[0][1]))
        elif kinds == ("gamma", "u"):
            p.eq(nm + ": the inner gamma has one more", pc, ds[0][2], add(k, ONE))
            p.eq(nm + ": the logarithm of the boosted draw", pc, o.val.t, add(fn("ln", ds[0][1]), div(fn("ln", ds[1][1]), k)))
        else:
            p.ob(nm + ": draws", ("open", "unsupported"), note=str(kinds))


# ------------------------------------------------------------------ the gaussian sampler
def bits(t, w):
    """(lowest bit, width) when the integer t is a range of bits of the word w"""
    if t is w:
        return (0, 64)
    if t.op not in ("imod", "idiv") or t.a[1].op != "c" or t.a[1].a[0] <= 0:
        return None
    s = int(t.a[1].a[0]).bit_length() - 1
    inner = bits(t.a[0], w)
    if inner is None or 1 << s != t.a[1].a[0]:
        return None
    low, width = inner
    if t.op == "imod":
        return (low, min(s, width))
    return (low + s, max(width - s, 0))


def find(t, f, out):
    if isinstance(t, T):
        if f(t) and t not in out:
            out.append(t)
        for u in t.a:
            find(u, f, out)
    return out


def ziggurat(p):
    """one pass of the sampler against the pass of the ziggurat method, then the tables"""
    p.trust('correctness of the ziggurat method given its one-pass relation and its tables (Marsaglia and Tsang 2000)')
    base = "gaussian::sample"
    r = kernel(p, "distribution::gaussian::sample")
    if isinstance(r, Unsupported):
        return p.lost(base, r)
    ex, outs = r
    live = [(i, o) for i, o in enumerate(outs) if o.kind in ("ret", "retry") and sat(list(o.st.pc))]
    ks, ss = [], []
    for i, o in live:
        for b in list(o.st.pc) + ([o.val.t] if isinstance(o.val, Fl) else []):
            find(b, lambda t: t.op == "isel", ks)
            find(b, lambda t: t.op == "sel", ss)
    lost = lambda why: p.lost(base, Unsupported(why))
    if len(ks) != 1:
        return lost("the table of integer bounds")
    kt, layer = ks[0].a
    fast = [o for i, o in live if o.kind == "ret" and all(d[0] == "w" for d in o.st.draws)]
    wt = [t for o in fast for t in find(o.val.t, lambda t: t.op == "sel", [])]
    if not wt or any(t.a[0] is not wt[0].a[0] for t in wt):
        return lost("the table of widths")
    wt = wt[0].a[0]
    yt = [t.a[0] for t in ss if t.a[0] is not wt]
    if not yt or any(t is not yt[0] for t in yt):
        return lost("the table of heights")
    yt = yt[0]
    Kt, Wt, Yt = ([mp.mpf(q.numerator) / q.denominator for q in (Q(v) for v in ex.tables[t])] for t in (kt, wt, yt))
    n = len(Kt)
    # the path's own terms for the column and the sign
    w0 = live[0][1].st.draws[0][1]
    cols = [t for b in fast[0].st.pc if b.op == "lt" and b.a[1].op == "isel" for t in [b.a[0]]]
    if not cols:
        return lost("the column")
    j = cols[0]
    bl, bj = bits(layer, w0), bits(j, w0)
    signs = [t for i, o in live for b in o.st.pc for t in find(b, lambda t: t.op == "imod" and bits(t, w0) and bits(t, w0)[1] == 1, [])]
    bs = bits(signs[0], w0) if signs else None
    rng = [b and set(range(b[0], b[0] + b[1])) for b in (bl, bj, bs)]
    ok = all(rng) and 1 << bl[1] == n == len(Wt) == len(Yt) and not (rng[0] & rng[1] or rng[0] & rng[2] or rng[1] & rng[2])
    p.ob(base + ": layer, column and sign are disjoint bits of one word", ("proved", "symbolic execution") if ok else ("open", ""), note=str((bl, bj, bs)))
    if not ok:
        return
    N = 1 << bj[1]
    last = const(n - 1, "I")
    jr = i2r(j)
    x = mul(jr, sel(wt, layer))
    col_in = lt(j, mk("isel", kt, layer, s="I"))
    seen = {}
    Rs = []
    for i, o in live:
        nm, pc = "%s/path%d" % (base, i), list(o.st.pc)
        sg = [b for b in pc if find(b, lambda t: t is signs[0], [])]
        ds = [d[1] for d in o.st.draws if d[0] == "u"]
        positive = None
        for s_ in (0, 1):
            if smt.check(pc + [eq(signs[0], const(s_, "I"))], 1500) == "unsat":
                positive = 1 - s_
        if positive is None:
            lost("sign of path %d" % i)
            continue
        case = "fast" if not ds else "wedge" if len(ds) == 1 else "tail" if len(ds) == 2 else None
        if case is None:
            lost("draws of path %d" % i)
            continue
        val = o.val.t if o.kind == "ret" else None
        if case == "fast":
            p.goal(nm + ": within the part under the curve", pc, conj(TRUE if o.kind == "ret" else FALSE, col_in))
            want = x
        elif case == "wedge":
            p.goal(nm + ": outside it, not in the last layer", pc, conj(neg_b(col_in), lt(layer, last)))
            want = x
            hi, lo = sel(yt, layer), sel(yt, add(layer, IONE))
            accept(p, nm, pc, o, add(lo, mul(sub(hi, lo), ds[0])), fn("exp", mul(const(Q(-1, 2)), power(x, 2))))
        else:
            p.goal(nm + ": outside it, in the last layer", pc, conj(neg_b(col_in), eq(layer, last)))
            R = tail_start(pc, val, ds)
            if R is None:
                lost("start of the tail of path %d" % i)
                continue
            Rs.append(R)
            want = None
            for u1, u2 in ((ds[0], ds[1]), (ds[1], ds[0])):
                for q1 in (sub(ONE, u1), u1):
                    w_ = sub(const(R), div(fn("ln", q1), const(R)))
                    if val is None or Canon(pc).equal(val, w_) or Canon(pc).equal(val, neg(w_)):
                        if accept(p, nm, pc, o, mul(u2, fn("exp", neg(mul(const(R), sub(w_, const(R / 2)))))),
                                  fn("exp", mul(const(Q(-1, 2)), power(w_, 2))), dry=True):
                            want = w_
                            accept(p, nm, pc, o, mul(u2, fn("exp", neg(mul(const(R), sub(w_, const(R / 2)))))),
                                   fn("exp", mul(const(Q(-1, 2)), power(w_, 2))))
                            break
                if want is not None:
                    break
            if want is None:
                lost("tail of path %d" % i)
                continue
        if val is not None:
            s0 = 1 if Canon(pc).equal(val, want) else -1
            p.eq(nm + ": the value of the %s part" % case, pc, val, want if s0 > 0 else neg(want))
            seen.setdefault((case, o.kind), set()).add((positive, s0))
        else:
            seen.setdefault((case, o.kind), set()).add((positive, 0))
    for key in (("fast", "ret"), ("wedge", "ret"), ("tail", "ret")):
        got = seen.get(key, set())
        p.ob("%s: the %s part comes with both signs, one for each value of the bit" % (base, key[0]),
             ("proved", "symbolic execution") if len(got) == 2 and {a for a, b in got} == {0, 1} and {b for a, b in got} == {1, -1} else ("open", ""), note=str(got))
    for key in (("wedge", "retry"), ("tail", "retry")):
        p.ob("%s: the %s part can be rejected" % (base, key[0]), ("proved", "symbolic execution") if seen.get(key) else ("open", ""))
    if not Rs or any(r != Rs[0] for r in Rs):
        return lost("start of the tail")
    R = mp.mpf(Rs[0].numerator) / Rs[0].denominator
    # lemma: the tail's proposal dominates the curve by exp(-(x - R)^2 / 2)
    xx = var("zz")
    p.eq("lemma gaussian::sample: the tail is accepted with probability exp(-(x - R)^2 / 2)", [],
         sub(mul(const(Q(-1, 2)), power(xx, 2)), neg(mul(const(Rs[0]), sub(xx, const(Rs[0] / 2))))), mul(const(Q(-1, 2)), power(sub(xx, const(Rs[0])), 2)))
    tables(p, base, n, N, Kt, Wt, Yt, R)


def accept(p, nm, pc, o, y, f, dry=False):
    """the path accepts exactly below the curve (ties have probability zero)"""
    g = le(y, f) if o.kind == "ret" else le(f, y)
    if dry:
        return p.prove(pc, g)[0] == "proved" or any(canon_same(pc, b, y, f, o.kind) for b in pc)
    t0 = time.time()
    r = ("proved", "canon") if any(canon_same(pc, b, y, f, o.kind) for b in pc) else p.prove(pc, g)
    p.ob("%s: %s the curve" % (nm, "accepts only below" if o.kind == "ret" else "rejects only above"), r, None, None, pc, show(g)[:200], t0)


def canon_same(pc, b, y, f, kind):
    """the path condition b is y < f (or f <= y when it tries again), up to the normal form"""
    if b.op not in ("lt", "le"):
        return False
    l, r = b.a
    u, v = (y, f) if kind == "ret" else (f, y)
    try:
        c = Canon([h for h in pc if h is not b])
        if c.equal(l, u) and c.equal(r, v):
            return True
        return c.equal(sub(r, l), sub(v, u))
    except (canon.CanonError, RecursionError, ZeroDivisionError):
        return False


def tail_start(pc, val, ds):
    """the constant R such that the value is R - ln(..)/R"""
    ts = [val] if val is not None else []
    for b in pc:
        ts += list(b.a) if b.op in ("lt", "le") else []
    for t in ts:
        for q in find(t, lambda h: h.op == "+" and any(h2.op == "c" for h2 in h.a) and fnof(h, "ln") and len(h.a) == 2, []):
            c0 = [h.a[0] for h in q.a if h.op == "c"][0]
            rest = [h for h in q.a if h.op != "c"][0]
            for k in find(rest, lambda h: h.op == "c", []):
                if abs(abs(k.a[0] * c0) - 1) < Q(1, 10 ** 9):
                    return abs(c0)
    return None


def tables(p, base, n, N, K, W, Y, R):
    """ground facts about the tables: the layers cover the area under the curve, each with the same area"""
    t0 = time.time()
    f = lambda x: mp.exp(-x * x / 2)
    xs = [w * N for w in W]
    # a rejected point starts all over, so the last layer carries the proposal's area beyond R, the integral of
    # exp(-R (x - R/2)) from R on, and not the curve's
    A = R * f(R) + f(R) / R
    tol = mp.mpf(10) ** -8

    def ground(nm, bad):
        p.ob("%s tables: %s" % (base, nm), ("proved", "ground evaluation") if not bad else ("open", "refuted"), None, None, (), "fails at %s" % bad[:5] if bad else "", t0)
    ground("heights decrease from one", [i for i in range(n - 1) if not Y[i] > Y[i + 1]] + ([0] if Y[0] != 1 else []))
    ground("each layer ends where the curve meets its lower edge", [i for i in range(n - 1) if abs(f(xs[i]) - Y[i + 1]) > tol])
    ground("all layers have the same area", [i for i in range(n - 1) if abs(xs[i] * (Y[i] - Y[i + 1]) - A) > 4 * tol * A * n] +
           ([n - 1] if abs(xs[n - 1] * Y[n - 1] - A) > 4 * tol * A * n else []))
    ground("the part accepted at once lies under the curve", [i for i in range(n - 1) if K[i] > 1 and f((K[i] - 1) * W[i]) < Y[i] - tol] + ([] if all(k >= 0 for k in K) else [-1]))
    ground("the last layer is a strip up to the tail and the tail", [i for i in [n - 1] if abs(K[i] * W[i] - R) > 1e-6 or abs(Y[i] - f(R)) > tol])


# ------------------------------------------------------------------ C16
def settle(t, pc, F):
    """unfold sums over a few known indices and decide the conditionals"""
    def go(u):
        if not isinstance(u, T) or not u.a:
            return u
        if u.op == "sum":
            v, lo, hi, body = u.a
            lo, hi = go(lo), go(hi)
            if lo.op == "c" and hi.op == "c" and hi.a[0] - lo.a[0] <= 8:
                return go(add(*[subst(body, {v: const(i, "I")}) for i in range(int(lo.a[0]), int(hi.a[0]))]))
            return u
        if u.op in ("forall",):
            return u
        if u.op == "ite":
            c = go(u.a[0])
            if smt.check(list(pc) + [neg_b(c)], 800) == "unsat":
                return go(u.a[1])
            if smt.check(list(pc) + [c], 800) == "unsat":
                return go(u.a[2])
        return rebuild(u, tuple(go(w) if isinstance(w, T) else w for w in u.a))
    return go(t)


FLIP = {PINF: NINF, NINF: PINF}


def relation(p, tag, A, sa, B, sb, H=(), methods=(), x=lambda v: v, pm=lambda v: v, km=lambda v: v, conv=lambda m, v: v, flip=(), rev=False, post=None,
             skip=(), hints=(), bval=lambda t: t):
    """A's postcondition under the parameters sa against B's under sb; B is asked at the mapped argument and gives
    conv of what A gives"""
    full = lambda t, s: subst(t, s) if isinstance(t, T) else t
    post = post or (lambda t: t)
    pre = [full(b, sa) for b in p.W.pre(A)] + list(H)
    pre = flat([post(b) for b in pre])
    for b in p.W.pre(B):
        p.goal("lemma %s: parameters are valid: %s" % (tag, show(b)), pre, post(full(b, sb)))
    for m in methods:
        cs = A.m.get(m) if m != "modes" else A.modes
        ds = B.m.get(m) if m != "modes" else B.modes
        if cs is None or ds is None:
            continue
        v, mp_ = {"density": (X, x), "distribution": (X, x), "inverse": (P_, pm), "mass": (K_, km)}.get(m, (None, None))
        n = 0
        prem = pre + [full(b, sa) for b in A.mpre.get(m, ())] + ([le(ZERO, P_), le(P_, ONE)] if m == "inverse" else []) + ([le(IZERO, K_)] if m == "mass" else [])
        s2 = dict(sb)
        if v is not None:
            s2[v] = mp_(v)
        g0 = []
        for i, (ga, va) in enumerate(cs):
            ga = post(full(ga, sa))
            pa = flat(prem + g0 + [ga])
            g0 = g0 + [neg_b(ga)]
            if not sat(pa):
                continue
            h0 = []
            for j, (gb, vb) in enumerate(ds):
                gb = post(full(gb, s2))
                pb = flat(pa + h0 + [gb])
                h0 = h0 + [neg_b(gb)]
                if (m, i, j) in skip or not sat(pb):
                    continue
                n += 1
                nm = "lemma %s: %s, case %d against case %d" % (tag, m, i, j)
                t0 = time.time()
                known = {}
                for u, vals in hints:
                    for w in vals:
                        if smt.check(pb + [ne(u, w)], 800) == "unsat":
                            known[u] = w
                L = list(va) if isinstance(va, list) else [va]
                R = list(vb) if isinstance(vb, list) else [vb]
                if len(L) != len(R):
                    p.ob(nm, ("open", ""), None, None, pb, "%d and %d values" % (len(L), len(R)), t0)
                    continue
                if rev and m == "modes":
                    R = R[::-1]
                if not L:
                    p.ob(nm, ("proved", "syntactic"))
                for e, (l, r) in enumerate(zip(L, R)):
                    if isinstance(l, str) or isinstance(r, str):
                        want = (FLIP.get(l, l) if m in flip else l) if isinstance(l, str) else l
                        ok = want == r
                        if not ok and isinstance(l, str) != isinstance(r, str) and not sat(pb, 5000):
                            ok = True
                        p.ob(nm, ("proved", "syntactic") if ok else ("open", ""), None, None, pb, "%s, %s" % (l, r), t0)
                        continue
                    w = l if l.s == "R" else i2r(l)
                    w = conv(m, settle(post(full(w, sa)), pb, A))
                    r = r if r.s == "R" else i2r(r)
                    r = settle(post(full(r, s2)), pb, B)
                    if known:
                        w, r = post(settle(subst(w, known), pb, A)), post(settle(subst(r, known), pb, B))
                    p.eq(nm + ("" if e == 0 else "/%d" % e), pb, w, bval(r))
        p.goal("lemma %s: %s is related" % (tag, m), [], TRUE if n else FALSE)


ALL = ["density", "mass", "distribution", "inverse", "mean", "variance", "deviation", "skewness", "kurtosis", "entropy", "modes", "median"]


def affine(L, S):
    def conv(m, v):
        if m in ("mean", "median", "modes", "inverse"):
            return add(L, mul(S, v))
        if m == "deviation":
            return mul(S, v)
        if m == "variance":
            return mul(power(S, 2), v)
        if m == "density":
            return div(v, S)
        if m == "entropy":
            return add(v, fn("ln", S))
        return v
    return conv


def C16(p):
    for F in FAM.values():
        contracts(p, F, *[m for m in ALL if not (m == "inverse" and F.discrete)])
    L, S = var("L"), var("S_")
    sp = specs
    aff = lambda v: add(L, mul(S, v))
    big = {"Gaussian": {sp.mu_: aff(sp.mu_), sp.sg: mul(S, sp.sg)}, "Laplace": {sp.mu_: aff(sp.mu_), sp.bl: mul(S, sp.bl)},
           "Logistic": {sp.mu_: aff(sp.mu_), sp.s_: mul(S, sp.s_)}, "Cauchy": {sp.x0: aff(sp.x0), sp.ga: mul(S, sp.ga)},
           "Uniform": {sp.a: aff(sp.a), sp.b: aff(sp.b)}, "Triangular": {sp.a: aff(sp.a), sp.b: aff(sp.b), sp.c3: aff(sp.c3)},
           "Pert": {sp.a: aff(sp.a), sp.b: aff(sp.b), sp.c3: aff(sp.c3)}, "Beta": {sp.a: aff(sp.a), sp.b: aff(sp.b)}}
    pos = [lt(ZERO, S)]
    for name, sb in big.items():
        relation(p, name + " shifted and scaled", FAM[name], {}, FAM[name], sb, pos, ALL, x=aff, conv=affine(L, S))
    up = lambda v: mul(S, v)
    relation(p, "Exponential scaled", FAM["Exponential"], {}, FAM["Exponential"], {sp.lam: div(sp.lam, S)}, pos, ALL, x=up, conv=affine(ZERO, S))
    relation(p, "Gamma scaled", FAM["Gamma"], {}, FAM["Gamma"], {sp.th: mul(S, sp.th)}, pos, ALL, x=up, conv=affine(ZERO, S))
    relation(p, "Lognormal scaled", FAM["Lognormal"], {}, FAM["Lognormal"], {sp.mu_: add(sp.mu_, fn("ln", S))}, pos, ALL, x=up, conv=affine(ZERO, S))
    # special cases
    relation(p, "PERT as beta", FAM["Pert"], {}, FAM["Beta"], {sp.al: sp.pal, sp.be: sp.pbe, sp.b: sp.c3}, (), ALL,
             hints=[(sp.b, [mul(HALF, add(sp.a, sp.c3))])])
    relation(p, "uniform as beta", FAM["Uniform"], {}, FAM["Beta"], {sp.al: ONE, sp.be: ONE}, (), ALL)
    relation(p, "exponential as gamma", FAM["Exponential"], {}, FAM["Gamma"], {sp.kg: ONE, sp.th: div(ONE, sp.lam)}, (), ALL)
    P, QQ = sp.P, sp.QQ
    one = {sp.n_: IONE}
    small = [(u, [ZERO, ONE]) for u in (floor_(X),)] + [(u, [IZERO, IONE]) for u in (r2i(X), K_)]
    relation(p, "Bernoulli as binomial", FAM["Bernoulli"], {}, FAM["Binomial"], one, (), ALL, hints=small)
    relation(p, "Bernoulli as binomial (failure)", FAM["Bernoulli.with_failure"], {}, FAM["Binomial.with_failure"], one, (), ALL, hints=small)
    two = {sp.kk: const(2, "I")}
    p0, p1 = sel(sp.pk, IZERO), sel(sp.pk, IONE)

    def cat2(t):
        t = settle(subst(t, two), [], None) if isinstance(t, T) and t.op != "forall" else TRUE if isinstance(t, T) and t.op == "forall" else t
        t = subst(t, {sel(sp.sa, IZERO): p0, sel(sp.sa, IONE): ONE})
        return subst(t, {p0: sub(ONE, P), p1: P})
    relation(p, "Bernoulli as categorical", FAM["Bernoulli"], {}, FAM["Categorical"], {}, [], ALL, post=cat2, hints=small)
    relation(p, "one-trial binomial as categorical", FAM["Binomial"], one, FAM["Categorical"], {}, [], [m for m in ALL if m != "mass"], post=cat2, hints=small)
    for v in (IZERO, IONE):
        relation(p, "one-trial binomial as categorical at %s" % show(v), FAM["Binomial"], one, FAM["Categorical"], {}, [eq(K_, v)], ["mass"], post=cat2, hints=small)
    # complementary constructors, default objects
    comp = {QQ: sub(ONE, P)}
    relation(p, "Bernoulli from its failure", FAM["Bernoulli"], {}, FAM["Bernoulli.with_failure"], comp, (), ALL)
    relation(p, "binomial from its failure", FAM["Binomial"], {}, FAM["Binomial.with_failure"], comp, (), ALL)
    std = {"Gaussian": {sp.mu_: ZERO, sp.sg: ONE}, "Logistic": {sp.mu_: ZERO, sp.s_: ONE}, "Lognormal": {sp.mu_: ZERO, sp.sg: ONE}, "Uniform": {sp.a: ZERO, sp.b: ONE}}
    for name, s in std.items():
        relation(p, "default %s" % name, FAM[name + ".default"], {}, FAM[name], s, (), ALL)
    # the exponential of a gaussian
    ex = lambda v: fn("exp", v)
    relation(p, "lognormal and gaussian", FAM["Gaussian"], {}, FAM["Lognormal"], {}, (), ["distribution", "inverse", "median", "density"], x=ex,
             conv=lambda m, v: ex(v) if m in ("inverse", "median") else div(v, ex(X)) if m == "density" else v, skip=[("inverse", 0, 0)])
    # mirrored parameters
    mir = lambda m, v: sub(ONE, v) if m == "distribution" else neg(v) if m in ("inverse", "mean", "median", "modes", "skewness") else v
    away = {"Laplace": (), "Uniform": [ne(X, sp.a), ne(X, sp.b)]}
    for name, s in (("Gaussian", {sp.mu_: neg(sp.mu_)}), ("Laplace", {sp.mu_: neg(sp.mu_)}), ("Logistic", {sp.mu_: neg(sp.mu_)}), ("Cauchy", {sp.x0: neg(sp.x0)}),
                    ("Uniform", {sp.a: neg(sp.b), sp.b: neg(sp.a)}), ("Triangular", {sp.a: neg(sp.b), sp.b: neg(sp.a), sp.c3: neg(sp.c3)}),
                    ("Pert", {sp.a: neg(sp.c3), sp.b: neg(sp.b), sp.c3: neg(sp.a)}), ("Beta", {sp.a: neg(sp.b), sp.b: neg(sp.a), sp.al: sp.be, sp.be: sp.al})):
        relation(p, "%s mirrored" % name, FAM[name], {}, FAM[name], s, (), ALL, x=neg, pm=lambda v: sub(ONE, v), conv=mir, flip=("inverse",), rev=True)
    # successes and failures change places; the CDF at k against the CDF at n - k - 1
    for nm in ("Binomial", "Bernoulli"):
        B = FAM[nm]
        nn = sp.n_ if nm == "Binomial" else IONE
        relation(p, "%s mirrored" % nm, B, {}, B, {P: sub(ONE, P)}, [le(K_, nn)], ["mass", "variance", "deviation", "kurtosis", "entropy"], km=lambda k: sub(nn, k), conv=mir,
                 bval=backwards)
        relation(p, "%s mirrored" % nm, B, {}, B, {P: sub(ONE, P)}, [], ["mean", "skewness"], conv=lambda m, v: sub(i2r(nn), v) if m == "mean" else neg(v))
        relation(p, "%s mirrored" % nm, B, {X: i2r(J_)}, B, {P: sub(ONE, P)}, [le(IZERO, J_), lt(J_, nn)], ["distribution"],
                 x=lambda v: i2r(sub(sub(nn, J_), IONE)), conv=mir)
    samples_agree(p)


J_ = var("J", "I")


def backwards(t):
    """the same finite sums, added from the other end"""
    if not isinstance(t, T) or not t.a:
        return t
    if t.op == "sum":
        v, lo, hi, body = t.a
        return mk("sum", v, lo, hi, subst(body, {v: sub(sub(add(lo, hi), IONE), v)}))
    return rebuild(t, tuple(backwards(u) if isinstance(u, T) else u for u in t.a))


def samples_agree(p):
    """over the same draws the lognormal sampler gives the exponential of the gaussian one, and a default object what the explicit one gives"""
    def outcomes(F):
        r = draws_of(p, F)
        if isinstance(r, Unsupported):
            return r
        return [o for o in r[1] if o.kind == "ret" and sat(list(o.st.pc))]

    def pair(tag, A, sa, B, f):
        oa, ob = outcomes(A), outcomes(B)
        for o in (oa, ob):
            if isinstance(o, Unsupported):
                return p.lost(tag, o)
        n = 0
        for i, a in enumerate(oa):
            for j, b in enumerate(ob):
                if [d[0] for d in a.st.draws] != [d[0] for d in b.st.draws]:
                    p.ob("%s: path %d and path %d read the same" % (tag, i, j), ("open", ""), A, "sample", a.st.pc)
                    continue
                ren = {e[1]: d[1] for d, e in zip(a.st.draws, b.st.draws)}
                ren.update(sa)
                for d, e in zip(a.st.draws, b.st.draws):
                    if len(d) > 2 and isinstance(d[2], T) and isinstance(e[2], T):
                        p.eq("%s: path %d and path %d draw with the same parameter" % (tag, i, j), a.st.pc, d[2], subst(e[2], ren), A, "sample")
                pc = flat(list(a.st.pc) + [subst(g, ren) for g in b.st.pc])
                if not sat(pc):
                    continue
                n += 1
                va, vb = (v.t if isinstance(v, Fl) else v for v in (a.val, b.val))
                if isinstance(va, str) or isinstance(vb, str):
                    p.ob("%s: path %d and path %d" % (tag, i, j), ("open", ""), A, "sample", pc)
                    continue
                p.eq("%s: path %d and path %d give related values" % (tag, i, j), pc, f(va), subst(vb, ren), A, "sample")
        p.goal(tag + ": paths are related", [], TRUE if n else FALSE)
    sp = specs
    pair("lognormal sample", FAM["Gaussian"], {}, FAM["Lognormal"], lambda v: fn("exp", v))
    for name, s in (("Gaussian", {sp.mu_: ZERO, sp.sg: ONE}), ("Logistic", {sp.mu_: ZERO, sp.s_: ONE}), ("Lognormal", {sp.mu_: ZERO, sp.sg: ONE}), ("Uniform", {sp.a: ZERO, sp.b: ONE})):
        pair("default %s sample" % name, FAM[name + ".default"], s, FAM[name], lambda v: v)
    pair("Bernoulli from its failure: sample", FAM["Bernoulli"], {sp.QQ: sub(ONE, sp.P)}, FAM["Bernoulli.with_failure"], lambda v: v)
