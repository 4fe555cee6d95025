"""Relational properties: each is a lemma over the contracts (specs.py) of the
operations it relates, plus the obligations that the code meets those contracts."""
import time
from fractions import Fraction as Q
import specs, smt, canon, lemmas, world, symex
from canon import Canon
from lemmas import *
from specs import FAM
from symex import Unsupported, Fl, Agg
from term import *

X, P_, K_ = specs.x_, specs.p_, specs.k_
HALF = const(Q(1, 2))
J = var("K", "I")


def contracts(p, F, *ms):
    for m in ms:
        if m in F.m or m == "modes" and F.modes is not None:
            p.contract(F, m)


def lemma(p, name, f, F=None):
    """run a lemma prover; its own limits leave the lemma open"""
    t0 = time.time()
    try:
        f()
    except (NoLemma, canon.CanonError, RecursionError, ZeroDivisionError) as e:
        p.ob(name, ("open", ""), F, None, (), "%s: %s" % (type(e).__name__, str(e)[:200]), t0)


def eq_lemma(p, name, pc, a, b, F):
    return p.eq("lemma " + name, pc, a, b, F, None)


# ------------------------------------------------------------------ CDF and density
def ftc(p, F):
    """F' = f inside every region"""
    pre = p.W.pre(F)
    n = 0
    for pd, od, f, i in regions(F.m["density"], pre, X):
        if od is None or isinstance(f, str):
            continue
        for pD, oD, D, j in regions(F.m["distribution"], pre, X):
            if oD is None:
                continue
            pc = flat(od + oD)
            if not sat(pc):
                continue
            n += 1
            nm = "%s: derivative of CDF case %d is density case %d" % (F.name, j, i)
            lemma(p, "lemma " + nm, lambda: eq_lemma(p, nm, pc, diff(D, X), f, F), F)
    p.goal("lemma %s: CDF and density overlap" % F.name, [], TRUE if n else FALSE, F)


def joins(p, F):
    """the CDF is continuous where its cases meet"""
    pre = p.W.pre(F)
    cs = F.m["distribution"]
    rg = [r for r in regions(cs, pre, X) if r[1] is not None]
    y1, y2 = var("y1"), var("y2")
    for c in breakpoints(cs, X):
        for a_ in range(len(rg)):
            for b_ in range(a_ + 1, len(rg)):
                (_, o1, v1, i), (_, o2, v2, j) = rg[a_], rg[b_]
                pc = flat([subst(g, {X: y1}) for g in o1] + [subst(g, {X: y2}) for g in o2] +
                          [subst(g, {X: c}) for g in weak(o1, X) + weak(o2, X)])
                if not sat(pc):
                    continue
                # the side each region lies on
                for s1 in (1, -1):
                    pc1 = pc + [lt(c, y1) if s1 > 0 else lt(y1, c)]
                    if not sat(pc1):
                        continue
                    for s2 in (1, -1):
                        pc2 = pc1 + [lt(c, y2) if s2 > 0 else lt(y2, c)]
                        if not sat(pc2):
                            continue
                        nm = "%s: CDF cases %d and %d meet at %s" % (F.name, i, j, show(c))

                        def go():
                            cn = Canon(pc2)
                            l1 = limit(v1, X, Lim("fin", c, s1), cn)
                            l2 = limit(v2, X, Lim("fin", c, s2), cn)
                            if l1.kind != "fin" or l2.kind != "fin":
                                raise NoLemma("infinite limit")
                            eq_lemma(p, nm, pc2, l1.t, l2.t, F)
                        lemma(p, "lemma " + nm, go, F)


def tails(p, F):
    pre = p.W.pre(F)
    cs = F.m["distribution"]
    bp = breakpoints(cs, X)
    for s, want in ((-1, ZERO), (1, ONE)):
        side = [lt(X, ZERO) if s < 0 else lt(ZERO, X)] + [(lt(X, c) if s < 0 else lt(c, X)) for c in bp]
        for pD, oD, D, j in regions(cs, pre, X):
            if oD is None or not sat(flat(oD + side)):
                continue
            nm = "%s: CDF case %d tends to %s" % (F.name, j, show(want))

            def go():
                cn = Canon(pre)
                l = limit(D, X, Lim("inf", s=s), cn)
                if l.kind != "fin":
                    raise NoLemma("infinite limit")
                eq_lemma(p, nm, pre, l.t, want, F)
            lemma(p, "lemma " + nm, go, F)
    lo, hi = F.support
    for end, want in ((lo, ZERO), (hi, ONE)):
        if isinstance(end, str):
            continue
        for pD, oD, D, j in regions(cs, pre, X):
            pc = flat(pD + [lt(X, end) if want is ZERO else le(end, X)])
            if sat(pc):
                eq_lemma(p, "%s: CDF case %d is %s beyond the end %s of the support" % (F.name, j, show(want), show(end)), pc, D, want, F)


def density_sign(p, F):
    pre = p.W.pre(F)
    for pd, od, f, i in regions(F.m["density"], pre, X):
        if isinstance(f, str) or not sat(pd):
            continue
        nm = "lemma %s: density case %d is not negative" % (F.name, i)
        t0 = time.time()
        if od is None or f.op == "c":
            p.goal(nm, pd, le(ZERO, f), F)
            continue
        s = Canon(od).sign(f)
        p.ob(nm, ("proved", "canon+z3") if s in ("+", "0+") else ("open", ""), F, None, pd, show(f)[:200], t0)


# ------------------------------------------------------------------ discrete CDFs
def at_int(t, k):
    """t at the real argument i2r(k)"""
    return subst(t, {X: i2r(k)})


def stepwise(t):
    """t with the integer part of x named J (J <= x < J + 1)"""
    return subst(t, {floor_(X): i2r(J), r2i(X): J})


def cells(F, pre, k):
    """[(facts, value)] of the CDF at the integer k"""
    out = []
    for pD, oD, D, j in regions(F.m["distribution"], pre, X):
        pc = flat([at_int(g, k) for g in pD])
        if sat(pc):
            out.append((pc, at_int(D, k), j))
    return out


def by_derivative(p, nm, pc, a, b, v, at, F):
    """a = b for all v in (0, 1): equal limits at one end and equal derivatives"""
    cn = Canon(pc)
    la, lb = limit(a, v, at, cn), limit(b, v, at, cn)
    if la.kind != "fin" or lb.kind != "fin":
        raise NoLemma("infinite limit")
    eq_lemma(p, nm + " [at the end]", pc, la.t, lb.t, F)
    eq_lemma(p, nm + " [derivative]", pc, diff(a, v), diff(b, v), F)


def discrete(p, F):
    pre = p.W.pre(F)
    # constant between integers
    between = [le(i2r(J), X), lt(X, add(i2r(J), ONE))]
    for pD, oD, D, j in regions(F.m["distribution"], pre, X):
        pc = flat([stepwise(g) for g in pD] + between)
        if not sat(pc):
            continue
        for pc2, D2, j2 in cells(F, pc, J):
            eq_lemma(p, "%s: CDF case %d keeps the value of case %d at the integer below" % (F.name, j, j2), pc2, stepwise(D), D2, F)
    # jumps
    top = unreal(F.support[1])
    K1 = sub(J, IONE)
    for pcm, m, i in [(flat([subst(g, {K_: J}) for g in f]), subst(v, {K_: J}), i) for f, o, v, i in regions(F.m["mass"], pre, K_)]:
        pcm = flat(pcm + [le(IZERO, J), le(J, top)])
        if not sat(pcm):
            continue
        for pc1, D1, j1 in cells(F, pcm, J):
            for pc2, D2, j2 in cells(F, pc1, K1):
                nm = "%s: CDF jump from case %d to case %d is mass case %d" % (F.name, j2, j1, i)
                for end in (IZERO, top):
                    if smt.check(pc2 + [ne(J, end)], 800) == "unsat":
                        pc2 = pc2 + [eq(J, end)]
                if F.fam == "Binomial" and D1.op == "incb" and D2.op == "incb":
                    v = F.params[1]
                    at = Lim("fin", ZERO, 1) if F.q is v else Lim("fin", ONE, -1)
                    # inside: 1 <= J <= n - 1, and J = n separately (there the CDF is one)
                    lemma(p, "lemma " + nm, lambda: by_derivative(p, nm, pc2, sub(D1, D2), m, v, at, F), F)
                else:
                    eq_lemma(p, nm, pc2, sub(D1, D2), m, F)
        nm = "%s: mass case %d is not negative" % (F.name, i)
        s = Canon(pcm).sign(m)
        p.ob("lemma " + nm, ("proved", "canon+z3") if s in ("+", "0+") else ("open", ""), F, None, pcm, show(m)[:100])


def categorical_sums(p):
    """the partial sums of a probability vector: S[j] is the sum of the first j + 1 entries, ends at one, stays in [0, 1]"""
    F = FAM["Categorical"]
    j = specs.j_
    P, S, K = specs.pk, specs.sa, specs.kk
    base = [b for b in p.W.pre(F)][:6]
    if len(base) != 6:
        return
    T = lambda i: sum_(j, IZERO, i, sel(P, j))
    unfold = lambda i: eq(T(add(i, IONE)), add(T(i), sel(P, i)))
    n = "lemma Categorical sums: "
    p.goal(n + "S[0] is the first partial sum", base + [eq(T(IZERO), ZERO), unfold(IZERO)], eq(sel(S, IZERO), T(IONE)), F)
    st = base + [le(IZERO, J), lt(add(J, IONE), K), eq(sel(S, J), T(add(J, IONE))), unfold(add(J, IONE))]
    p.goal(n + "S[j + 1] is the next partial sum", st, eq(sel(S, add(J, IONE)), T(add(J, const(2, "I")))), F)
    p.goal(n + "the last is one", base + [eq(sel(S, sub(K, IONE)), T(K))], eq(sel(S, sub(K, IONE)), ONE), F)
    p.goal(n + "not negative at 0", base, le(ZERO, sel(S, IZERO)), F)
    p.goal(n + "nondecreasing", base + [le(IZERO, J), lt(add(J, IONE), K), le(ZERO, sel(S, J))],
           conj(le(ZERO, sel(S, add(J, IONE))), le(sel(S, J), sel(S, add(J, IONE)))), F)


# ------------------------------------------------------------------ C03, C04
def C03(p):
    for F in FAM.values():
        contracts(p, F, "distribution")
        if F.discrete:
            discrete(p, F)
        else:
            ftc(p, F)
            joins(p, F)
            density_sign(p, F)
        tails(p, F)
    categorical_sums(p)


def C04(p):
    for F in FAM.values():
        contracts(p, F, "density", "mass", "distribution")
        if F.discrete:
            discrete(p, F)
        else:
            ftc(p, F)
            joins(p, F)
        tails(p, F)
    categorical_sums(p)


# ------------------------------------------------------------------ C05 quantiles
OPEN01 = [lt(ZERO, P_), lt(P_, ONE)]


def inverts(p, F):
    """CDF(quantile(p)) = p for 0 < p < 1"""
    pre = p.W.pre(F) + OPEN01
    for pq, oq, q, i in regions(F.m["inverse"], pre, P_):
        if not sat(pq):
            continue
        if isinstance(q, str):
            p.ob("lemma %s: quantile case %d is finite inside" % (F.name, i), ("open", "refuted"), F)
            continue
        n = 0
        for pD, oD, D, j in regions(F.m["distribution"], pq, X):
            pc = flat([subst(g, {X: q}) for g in pD])
            if not sat(pc, 3000):
                continue
            n += 1
            nm = "%s: CDF case %d at quantile case %d is the probability" % (F.name, j, i)
            lemma(p, "lemma " + nm, lambda: eq_lemma(p, nm, pc, subst(D, {X: q}), P_, F), F)
        p.goal("lemma %s: quantile case %d meets the CDF" % (F.name, i), [], TRUE if n else FALSE, F)


def smallest(p, F, pc, r, name, meth="inverse", slack=0):
    """the integer r is the smallest outcome whose CDF reaches P_ (or at most slack below it)"""
    top = unreal(F.support[1])
    p.goal(name + ": in the support", pc, conj(le(IZERO, r), le(r, top)), F, meth)
    at = add(r, const(slack, "I"))
    for pc1, D, j in cells(F, pc, at):
        p.goal(name + ": CDF case %d reaches the probability%s" % (j, " one outcome later at most" if slack else ""),
               pc1, le(P_, D), F, meth)
    pc0 = pc + [lt(IZERO, r)]
    if sat(pc0):
        for pc1, D, j in cells(F, pc0, sub(r, IONE)):
            p.goal(name + ": CDF case %d does not reach it one outcome before" % j, pc1, lt(D, P_), F, meth)


def C05(p):
    for F in FAM.values():
        if F.fam in ("Binomial", "Categorical"):
            continue
        if "inverse" not in F.m:
            continue
        contracts(p, F, "inverse", "distribution")
        if F.fam == "Bernoulli":
            pre = p.W.pre(F) + OPEN01
            for pq, oq, q, i in regions(F.m["inverse"], pre, P_):
                if sat(pq):
                    smallest(p, F, pq, unreal(q), "lemma %s: quantile case %d" % (F.name, i))
        else:
            inverts(p, F)
    for F in FAM.values():
        if F.fam in ("Binomial", "Categorical"):
            contracts(p, F, "distribution")
            discrete(p, F)
            discrete_inverse(p, F, True)


def run_inverse(p, F):
    key = ("inverse run", F.name)
    if key not in p.done:
        try:
            p.done[key] = p.run_method(F, "inverse")
        except Unsupported as e:
            p.done[key] = e
    return p.done[key]


def discrete_inverse(p, F, value):
    """obligations on every exit of the quantile function of a binomial or categorical"""
    base = "%s::inverse" % F.name
    r = run_inverse(p, F)
    if isinstance(r, Unsupported):
        return p.lost(base, r, F, "inverse")
    ex, outs, s0 = r
    n = 0
    for i, o in enumerate(outs):
        if o.kind != "ret":
            continue
        pc = list(o.st.pc) + (OPEN01 if value else [])
        if not sat(pc):
            continue
        n += 1
        nm = "%s/path%d" % (base, i)
        if not isinstance(o.val, T):
            p.ob(nm + " returns an outcome", ("open", "refuted"), F, "inverse", pc, repr(o.val))
            continue
        if value:
            exit_value(p, F, ex, nm, pc, o.val)
        else:
            exit_range(p, F, ex, nm, pc, o.val)
    if n == 0:
        p.ob(base + "/returns", ("open", ""), F, "inverse")
    for l in ex.loop_obl:
        p.ob("%s/loop of %s terminates: %s" % (base, l["function"].split("::")[-1], l["variant"]),
             ("proved", "z3") if l["variant"] else ("open", ""), F, "inverse")


def exit_value(p, F, ex, nm, pc, r):
    import loops
    if F.fam == "Categorical":
        S, PP = specs.sa, specs.pk
        p.goal(nm + ": in the support", pc, conj(le(IZERO, r), lt(r, specs.kk)), F, "inverse")
        p.goal(nm + ": CDF reaches the probability", pc, le(P_, sel(S, r)), F, "inverse")
        r1 = sub(r, IONE)
        p.goal(nm + ": CDF does not reach it one outcome before", pc + [lt(IZERO, r)], lt(sel(S, r1), P_), F, "inverse")
        p.goal(nm + ": the outcome has positive probability", pc, lt(ZERO, sel(PP, r)), F, "inverse")
        return
    # for many trials and a small variance the property leaves room for one outcome
    slack = all(smt.check(pc + [neg_b(g)], 800) == "unsat" for g in world.early(F).a)
    smallest(p, F, pc + bin_facts(ex, F, pc, r), r, nm, slack=1 if slack else 0)


def bin_facts(ex, F, pc, r):
    """instances of the lemma bin_step (and of I_q(0+...)): F(i) = F(i-1) + M(i) around r"""
    import loops
    M, Fk = loops.bin_terms(F)
    out = []
    for i in (add(r, IONE), r, sub(r, IONE)):
        j = sub(i, IONE)
        out.append(disj(lt(i, IONE), le(specs.n_, i), eq(Fk(i), add(Fk(j), M(i)))))
        out.append(disj(ne(i, specs.n_), lt(i, IONE), eq(ONE, add(Fk(j), M(i)))))
    return out


def exit_range(p, F, ex, nm, pc, r):
    top = unreal(F.support[1])
    p.goal(nm + ": in the support", pc, conj(le(IZERO, r), le(r, top)), F, "inverse")
    z, o = pc + [eq(P_, ZERO)], pc + [eq(P_, ONE)]
    if F.fam == "Binomial":
        if sat(z):
            p.goal(nm + ": the lower end at 0", z, eq(r, IZERO), F, "inverse")
        if sat(o):
            p.goal(nm + ": the upper end at 1", o, eq(r, top), F, "inverse")
    else:
        PP, j = specs.pk, specs.j_
        p.goal(nm + ": an outcome of positive probability", pc, lt(ZERO, sel(PP, r)), F, "inverse")
        if sat(z):
            p.goal(nm + ": nothing possible below at 0", z, forall(j, IZERO, r, le(sel(PP, j), ZERO)), F, "inverse")
        if sat(o):
            # the partial sums are nondecreasing (lemma categorical_sums)
            o = o + [forall(j, r, specs.kk, le(sel(specs.sa, r), sel(specs.sa, j)))]
            p.goal(nm + ": nothing possible above at 1", o, forall(j, add(r, IONE), specs.kk, le(sel(PP, j), ZERO)), F, "inverse")


# ------------------------------------------------------------------ C06 quantile order, support, ends
def ends_and_support(p, F):
    pre = p.W.pre(F) + [le(ZERO, P_), le(P_, ONE)]
    lo, hi = F.support
    for pq, oq, q, i in regions(F.m["inverse"], pre, P_):
        for at, want, w in ((ZERO, lo, "lower end"), (ONE, hi, "upper end")):
            pc = flat(pq + [eq(P_, at)])
            if not sat(pc):
                continue
            nm = "%s: quantile case %d at %s is the %s of the support" % (F.name, i, show(at), w)
            if isinstance(q, str) or isinstance(want, str):
                p.ob("lemma " + nm, ("proved", "syntactic") if q == want else ("open", "refuted"), F, None, pc)
            else:
                t = subst(q, {P_: at})
                p.goal("lemma " + nm, flat([subst(g, {P_: at}) for g in pc]), eq(t, want), F)
        pc = flat(pq + OPEN01)
        if isinstance(q, str) or not sat(pc):
            continue
        gs = [le(lo, q)] if not isinstance(lo, str) else []
        gs += [le(q, hi)] if not isinstance(hi, str) else []
        for g in gs:
            p.goal("lemma %s: quantile case %d lies in the support" % (F.name, i), pc, g, F)


def galois(p):
    """an exact quantile of a nondecreasing CDF is nondecreasing"""
    p.trust('a quantile function defined as the least point where a nondecreasing function reaches p is nondecreasing (Galois connection)')
    F1, F2, q1, q2, p1, p2 = (var(s) for s in ("Fq1", "Fq2", "q1", "q2", "p1", "p2"))
    p.goal("lemma: continuous quantiles are ordered like their probabilities",
           [disj(lt(q1, q2), le(F2, F1)), eq(F1, p1), eq(F2, p2), lt(p1, p2)], lt(q1, q2))
    r1, r2 = var("r1", "I"), var("r2", "I")
    G = fresh("G")           # the CDF just before r1
    p.goal("lemma: smallest outcomes are ordered like their probabilities",
           [le(p1, p2), le(p2, F2), lt(G, p1), disj(le(r1, r2), le(F2, G))], le(r1, r2))


def C06(p):
    galois(p)
    for F in FAM.values():
        if "inverse" not in F.m:
            continue
        contracts(p, F, "inverse", "distribution")
        ends_and_support(p, F)
        if F.fam == "Bernoulli":
            discrete(p, F)
            pre = p.W.pre(F) + OPEN01
            for pq, oq, q, i in regions(F.m["inverse"], pre, P_):
                if sat(pq):
                    smallest(p, F, pq, unreal(q), "lemma %s: quantile case %d" % (F.name, i))
        else:
            inverts(p, F)
            ftc(p, F)
            joins(p, F)
            density_sign(p, F)
    for F in FAM.values():
        if F.fam in ("Binomial", "Categorical"):
            contracts(p, F, "distribution")
            discrete(p, F)
            discrete_inverse(p, F, False)
            discrete_inverse(p, F, True)


# ------------------------------------------------------------------ C07 medians
def C07(p):
    for F in FAM.values():
        if "median" in F.m:
            contracts(p, F, "median", "distribution")
            halves(p, F)
        if F.fam in ("Binomial", "Categorical"):
            contracts(p, F, "distribution")
            discrete(p, F)
            discrete_median(p, F)


def halves(p, F):
    pre = p.W.pre(F)
    for i, (g, m) in enumerate(F.m["median"]):
        pc = flat(pre + [neg_b(h) for h, _ in F.m["median"][:i]] + [g])
        if not sat(pc):
            continue
        nm = "%s: median case %d" % (F.name, i)
        half(p, F, pc, m, "lemma " + nm, None)


def half(p, F, pc, m, nm, meth):
    """P(X <= m) >= 1/2 and P(X < m) <= 1/2 at the number m"""
    if F.discrete:
        return half_discrete(p, F, pc, m, nm, meth)
    n = 0
    for pD, oD, D, j in regions(F.m["distribution"], pc, X):
        pc1 = flat([subst(g, {X: m}) for g in pD])
        if not sat(pc1):
            continue
        n += 1
        p.eq(nm + ": CDF case %d is one half" % j, pc1, subst(D, {X: m}), HALF, F, meth)
    p.goal(nm + ": within the CDF", [], TRUE if n else FALSE, F, meth)


def pinned(pc):
    """real variables that an equation of the path condition fixes to a constant"""
    out = {}
    for b in pc:
        if b.op == "eq" and b.a[0].s == "R":
            d = sub(b.a[0], b.a[1])
            vs = [v for v in free(d) if v.s == "R"]
            if len(vs) == 1:
                c0, c1, c2 = (subst(d, {vs[0]: const(i)}) for i in range(3))
                k = sub(c1, c0)
                if c0.op == k.op == "c" and k.a[0] and sub(c2, c1) is k and add(mul(k, vs[0]), c0) is d:
                    out[vs[0]] = const(-c0.a[0] / k.a[0])
    return out


def half_discrete(p, F, pc, m, nm, meth):
    # k <= m < k + 1
    k = unreal(m)
    whole = k is not None
    if k is None:
        k = fresh("m", "I")
        if Canon(pc).sign(m) in ("+", "0+"):
            pc = pc + [le(ZERO, m)]
        # abstracting the number itself keeps the question linear
        w = fresh("w")
        pcw = [subst(b, {m: w}) for b in pc]
        whole = smt.check(pc + [ne(m, floor_(m))], 1500) == "unsat" or smt.check(pcw + [ne(w, floor_(w))], 1500) == "unsat"
        pc = pc + ([eq(i2r(k), m)] if whole else [le(i2r(k), m), lt(m, add(i2r(k), ONE))])
    if F.fam == "Binomial":
        pc = pc + median_facts(F, k)
        odd = eq(specs.n_, add(mul(const(2, "I"), k), IONE))
        known = pinned(pc)
        if smt.check(pc + [neg_b(odd)], 1500) == "unsat" or known and "unsat" in (
                smt.check([subst(b, known) for b in pc + [neg_b(odd)]], 1500),
                smt.cvc5_check([subst(b, known) for b in pc + [neg_b(odd)]], 3)):
            pc = pc + [odd]
    if not whole and smt.check(pc + [eq(i2r(k), m)], 1500) != "unsat" and smt.check(pcw + [eq(i2r(k), w)], 1500) != "unsat":
        p.goal(nm + ": an integer or not", pc, FALSE, F, meth)
        return
    n = 0
    for pc1, D, j in cells(F, pc, k):
        n += 1
        p.goal(nm + ": CDF case %d is at least one half" % j, pc1, le(HALF, D), F, meth)
    below = sub(k, IONE) if whole else k
    for pc1, D, j in cells(F, pc, below):
        p.goal(nm + ": CDF case %d before is at most one half" % j, pc1, le(D, HALF), F, meth)
    p.goal(nm + ": within the CDF", [], TRUE if n else FALSE, F, meth)


def discrete_median(p, F):
    F.fam == 'Binomial' and p.trust('the median of a binomial distribution: an integer within min(p, 1 - p) of n p is a median (Kaas and Buhrman 1980), and n p itself when integral (Neumann 1966)')
    base = "%s::median" % F.name
    try:
        ex, outs, s0 = p.run_method(F, "median")
    except Unsupported as e:
        return p.lost(base, e, F, "median")
    n = 0
    for i, o in enumerate(outs):
        pc = list(o.st.pc)
        if o.kind == "panic":
            p.ob("%s/path%d cannot panic" % (base, i), p.dead(pc), F, "median", pc, str(o.val))
        if o.kind != "ret" or not sat(pc):
            continue
        n += 1
        nm = "%s/path%d" % (base, i)
        if not isinstance(o.val, Fl):
            p.ob(nm + " returns a number", ("open", "refuted"), F, "median", pc, repr(o.val))
            continue
        m = o.val.t
        if F.fam == "Categorical" and finding_f1(p, pc, m):
            p.ob(nm + ": KNOWN FINDING F1 (half an outcome before the tie)", ("finding", "F1"), F, "median", pc)
            continue
        half(p, F, pc, m, nm, "median")
    if n == 0:
        p.ob(base + "/returns", ("open", ""), F, "median")
    for nm, pc, goal in ex.checks:
        p.goal("%s/requires: %s" % (base, nm), list(pc), goal, F, "median")


def finding_f1(p, pc, m):
    """m = i - 1/2 where the partial sum is exactly one half at i and below it before"""
    i = unreal(add(m, HALF))
    if i is None:
        return False
    S = specs.sa
    return smt.check(pc + [neg_b(conj(le(IONE, i), lt(i, specs.kk), eq(sel(S, i), HALF), lt(sel(S, sub(i, IONE)), HALF)))], 2000) == "unsat"


def median_facts(F, k):
    """textbook theorem on binomial medians (trusted): an integer within min(p, q) of np is a median
    (Kaas and Buhrman 1980; Neumann 1966 for integral np)"""
    import loops
    M, Fk = loops.bin_terms(F)
    np_ = mul(i2r(specs.n_), F.p)
    kr = i2r(k)
    near = [le(sub(np_, kr), F.p), le(sub(np_, kr), F.q), le(sub(kr, np_), F.p), le(sub(kr, np_), F.q)]
    return [disj(*[neg_b(b) for b in near], le(specs.n_, k), le(HALF, Fk(k))),
            disj(*[neg_b(b) for b in near], le(k, IZERO), le(Fk(sub(k, IONE)), HALF))]


# ------------------------------------------------------------------ C08 modes
def at_point(F, m, pre):
    """[(facts, value)] of the density at the point m"""
    out = []
    for pd, od, f, i in regions(F.m["density"], pre, X):
        pc = flat([subst(g, {X: m}) for g in pd])
        if sat(pc):
            out.append((pc, f if isinstance(f, str) else subst(f, {X: m}), i))
    return out


def logdiff(f, v):
    """f'/f of a positive product"""
    if v not in free(f):
        return ZERO
    if f.op == "*":
        return add(*[logdiff(u, v) for u in f.a])
    if f.op == "exp":
        return diff(f.a[0], v)
    if f.op == "pow":
        return mul(const(f.a[1]), logdiff(f.a[0], v))
    return div(diff(f, v), f)


Z_ = var("z")


def coordinate(F):
    """an increasing change of the argument under which the density is simplest: (x as a term of Z_, positive factor)"""
    if F.fam == "Lognormal":
        return fn("exp", Z_), ONE
    if F.loc:
        return add(F.loc[0], mul(F.loc[1], Z_)), F.loc[1]
    return Z_, ONE


def slope(p, nm, pc, f, sign, F):
    """the density strictly increases (sign > 0) or decreases in the open region"""
    t0 = time.time()

    def go():
        x, k = coordinate(F)
        pz = []
        for g in pc:
            h = subst(g, {X: x})
            if g.op == "lt" and X in free(g) and k is not ONE:
                c0 = Canon([b for b in pc if X not in free(b)])
                h = lt(ZERO, c0.term(c0.conv(div(sub(h.a[1], h.a[0]), k))))
            pz.append(h)
        pz = flat(pz)
        c = Canon(pz)
        t = c.term(c.conv(logdiff(subst(f, {X: x}), Z_)))
        want = "+" if sign > 0 else "-"
        if c.sign(t) == want:
            return p.ob("lemma " + nm, ("proved", "canon+z3"), F, None, pc, show(t)[:200], t0)
        # clear the positive denominators
        den = {}

        def walk(u):
            if u.op == "pow" and u.a[1] < 0 and u.a[1].denominator == 1:
                den[u.a[0]] = min(u.a[1], den.get(u.a[0], 0))
            elif u.op in ("+", "*"):
                for w in u.a:
                    walk(w)
        walk(t)
        for d, e in sorted(den.items(), key=lambda u: u[0].id):
            if e % 2:
                p.goal("lemma %s [denominator]" % nm, pz, lt(ZERO, d), F)
        num = c.term(c.conv(mul(t, *[power(d, -e) for d, e in sorted(den.items(), key=lambda u: u[0].id)])))
        p.goal("lemma %s [numerator]" % nm, pz, lt(ZERO, num) if sign > 0 else lt(num, ZERO), F)
    lemma(p, "lemma " + nm, go, F)


def maximisers(p, F):
    pre0 = p.W.pre(F)
    neg_ = []
    x, k = coordinate(F)
    p.goal("lemma %s: the change of variable increases" % F.name, pre0, lt(ZERO, k), F)
    for ci, (g, ms) in enumerate(F.modes):
        pre = flat(pre0 + neg_ + [g])
        neg_ = neg_ + [neg_b(g)]
        if not sat(pre):
            continue
        nm = "%s: mode case %d" % (F.name, ci)
        if not ms:
            # constant density, or unbounded at an end the family does not report
            cells_ = regions(F.m["density"], pre, X)
            if any(f == PINF and sat(pd) for pd, od, f, i in cells_):
                p.ob("lemma %s: empty as the density is unbounded" % nm, ("proved", "syntactic"), F, None, pre)
                continue
            for pd, od, f, i in cells_:
                if isinstance(f, str) or f is ZERO or not sat(pd):
                    continue
                eq_lemma(p, "%s: constant density (case %d)" % (nm, i), pd, f, div(ONE, sub(*F.support[::-1])), F)
            continue
        in_support(p, F, nm, pre, ms)
        for ph, fh, k in at_point(F, ms[0], pre):
            peak(p, F, "%s, density case %d at the mode" % (nm, k), ph, fh, k, ms)
    p.goal("lemma %s: some mode case applies" % F.name, pre0 + neg_, FALSE, F)


def peak(p, F, nm, pre, fm, km, ms):
    """pre: facts about parameters under which the density at ms[0] is its case km, with value fm"""
    cells_ = regions(F.m["density"], pre, X)
    m = ms[0]
    if isinstance(fm, str):
        # unbounded: the listed points are exactly those where the density is infinite
        for m in ms:
            for pc, f, i in at_point(F, m, pre):
                p.ob("lemma %s: the density is unbounded at %s" % (nm, show(m)), ("proved", "syntactic") if f == PINF else ("open", "refuted"), F, None, pc)
        for pd, od, f, i in cells_:
            if isinstance(f, str) and sat(pd):
                p.goal("lemma %s: unbounded only at the listed points (case %d)" % (nm, i), pd, disj(*[eq(X, m) for m in ms]), F)
        for x in range(len(ms)):
            for y in range(x):
                p.goal("lemma %s: no repetition" % nm, pre, ne(ms[x], ms[y]), F)
        return
    if len(ms) > 1:
        p.ob("lemma %s: one mode" % nm, ("open", ""), F)
    s = Canon(pre).sign(fm)
    p.ob("lemma %s: positive there" % nm, ("proved", "canon+z3") if s == "+" else ("open", ""), F, None, pre, show(fm)[:100])
    for pd, od, f, i in cells_:
        if not sat(pd):
            continue
        if isinstance(f, str):
            p.ob("lemma %s: finite elsewhere" % nm, ("open", "refuted"), F, None, pd)
            continue
        if f is ZERO:
            continue
        if od is None:
            # single points: only the mode itself
            pc = flat(pd + [ne(X, m)])
            if sat(pc):
                end_value(p, "%s: density case %d" % (nm, i), pc, f, fm, F)
            continue
        for s, side in ((1, lt(X, m)), (-1, lt(m, X))):
            pc = flat(od + [side])
            if not sat(pc):
                continue
            slope(p, "%s: density case %d %s on this side" % (nm, i, "increases" if s > 0 else "decreases"), pc, f, s, F)
            if i != km:
                # the side reaches the mode, and the density is continuous there
                nm2 = "%s: density case %d approaches it" % (nm, i)

                def go():
                    fix = pinned(pre)
                    cn = Canon(pre)
                    l = limit(subst(f, fix), X, Lim("fin", subst(m, fix), -s), cn)
                    if l.kind != "fin":
                        raise NoLemma("infinite limit")
                    eq_lemma(p, nm2, pre, l.t, fm, F)
                lemma(p, "lemma " + nm2, go, F)


def end_value(p, nm, pc, f, fm, F):
    """an end of the support where the density has a positive value of its own, less than at the mode"""
    p.goal("lemma %s is less than at the mode" % nm, pc, lt(f, fm), F)


def in_support(p, F, nm, pre, ms):
    lo, hi = F.support
    for m in ms:
        g = ([le(lo, m)] if not isinstance(lo, str) else []) + ([le(m, hi)] if not isinstance(hi, str) else [])
        if g:
            p.goal("lemma %s: %s lies in the support" % (nm, show(m)), pre, conj(*g), F)


def bernoulli_modes(p, F):
    pre0, neg_ = p.W.pre(F), []
    mass = lambda k: {IZERO: F.acc["q"], IONE: F.acc["p"]}[k]
    for ci, (g, ms) in enumerate(F.modes):
        pre = flat(pre0 + neg_ + [g])
        neg_ = neg_ + [neg_b(g)]
        got = [unreal(m) for m in ms]
        for k in (IZERO, IONE):
            o = IONE if k is IZERO else IZERO
            p.goal("lemma %s: mode case %d %s %s" % (F.name, ci, "lists" if k in got else "leaves out", show(k)), pre,
                   le(mass(o), mass(k)) if k in got else lt(mass(k), mass(o)), F)


def binomial_modes(p, F):
    """successive masses compare like K and (n + 1) p"""
    pre0 = p.W.pre(F)
    n = specs.n_
    M = lambda k: fn("exp", F.lnm(i2r(k)))
    K1 = sub(J, IONE)
    base = pre0 + [le(IONE, J), le(J, n)]
    a, b = mul(M(J), F.q, i2r(J)), mul(M(K1), F.p, add(sub(i2r(n), i2r(J)), ONE))
    eq_lemma(p, "%s: ratio of successive masses" % F.name, base, a, b, F)
    m1, m0 = var("M1"), var("M0")
    fact = base + [lt(ZERO, m1), lt(ZERO, m0), eq(mul(m1, F.q, i2r(J)), mul(m0, F.p, add(sub(i2r(n), i2r(J)), ONE)))]
    np1 = mul(add(i2r(n), ONE), F.p)
    for nm, side, g in (("grow before", lt(i2r(J), np1), lt(m0, m1)), ("stay the same at", eq(i2r(J), np1), eq(m0, m1)),
                        ("fall after", lt(np1, i2r(J)), lt(m1, m0))):
        p.goal("lemma %s: masses %s (n + 1) p" % (F.name, nm), fact + [side], g, F)
    # hence the largest masses are at the integers m with m <= (n + 1) p <= m + 1
    neg_ = []
    for ci, (g, ms) in enumerate(F.modes):
        pre = flat(pre0 + neg_ + [g])
        neg_ = neg_ + [neg_b(g)]
        nm = "lemma %s: mode case %d" % (F.name, ci)
        w = var("w")
        if smt.check(pre + [ne(np1, floor_(np1))], 1500) == "unsat":
            w = i2r(var("wi", "I"))
        ww = [subst(h, {np1: w}) for h in pre] + [lt(ZERO, w), lt(w, add(i2r(n), ONE))]
        p.goal(nm + " [0 < (n + 1) p < n + 1]", pre, conj(lt(ZERO, np1), lt(np1, add(i2r(n), ONE))), F)
        vals = [subst(m, {np1: w}) for m in ms]
        isint = lambda m: eq(m, floor_(m))
        for m in vals:
            p.goal(nm + ": %s is a maximiser in the support" % show(m), ww,
                   conj(isint(m), le(ZERO, m), le(m, i2r(n)), le(m, w), le(w, add(m, ONE))), F)
        p.goal(nm + ": no other", ww + [le(i2r(J), w), le(w, add(i2r(J), ONE)), le(IZERO, J), le(J, n)], disj(*[eq(i2r(J), m) for m in vals]), F)
        for x in range(len(vals)):
            for y in range(x):
                p.goal(nm + ": no repetition", ww, ne(vals[x], vals[y]), F)


def categorical_modes(p, F):
    base = "%s::modes" % F.name
    try:
        ex, outs, s0 = p.run_method(F, "modes")
    except Unsupported as e:
        return p.lost(base, e, F, "modes")
    P, S, K, i, j = specs.pk, specs.sa, specs.kk, var("i0", "I"), specs.j_
    # a probability vector has a positive entry (induction over the partial sums)
    none = forall(j, IZERO, K, le(sel(P, j), ZERO))
    pre = p.W.pre(F) + [none]
    p.goal("lemma Categorical: no positive entry keeps the first sum at most 0", pre, le(sel(S, IZERO), ZERO), F)
    p.goal("lemma Categorical: no positive entry keeps the next sum at most 0", pre + [le(IZERO, J), lt(add(J, IONE), K), le(sel(S, J), ZERO)],
           le(sel(S, add(J, IONE)), ZERO), F)
    p.goal("lemma Categorical: some entry is positive", pre + [le(sel(S, sub(K, IONE)), ZERO)], FALSE, F)
    n = 0
    for k, o in enumerate(outs):
        pc = list(o.st.pc)
        nm = "%s/path%d" % (base, k)
        if o.kind == "panic":
            p.ob(nm + " cannot panic", p.dead(pc), F, "modes", pc, str(o.val))
        if o.kind != "ret" or not sat(pc):
            continue
        n += 1
        v = o.val
        if not isinstance(v, symex.IVec):
            p.ob(nm + " returns the maximisers", ("open", "unsupported"), F, "modes", pc, repr(v))
            continue
        w = var("w0", "I")
        # some entry is positive
        pc += [le(IZERO, w), lt(w, K), lt(ZERO, sel(P, w))]
        inr = [le(IZERO, i), lt(i, K)]
        p.goal(nm + ": every listed outcome is a maximiser", pc + inr + [v.has(i), le(IZERO, J), lt(J, K)], le(sel(P, J), sel(P, i)), F, "modes")
        p.goal(nm + ": every maximiser is listed", pc + inr + [forall(j, IZERO, K, le(sel(P, j), sel(P, i)))], v.has(i), F, "modes")
        p.goal(nm + ": nothing beyond the last outcome is listed", pc, lt(v.last, K), F, "modes")
    if n == 0:
        p.ob(base + "/returns", ("open", ""), F, "modes")
    for l in ex.loop_obl:
        p.ob("%s/loop terminates: %s" % (base, l["variant"]), ("proved", "z3") if l["variant"] else ("open", ""), F, "modes")
    for nm, pc, goal in ex.checks:
        p.goal("%s/requires: %s" % (base, nm), list(pc), goal, F, "modes")


def C08(p):
    for F in FAM.values():
        if F.fam == "Categorical":
            categorical_modes(p, F)
            continue
        if F.modes is None:
            continue
        contracts(p, F, "modes", "density", "mass")
        if F.fam == "Bernoulli":
            bernoulli_modes(p, F)
        elif F.fam == "Binomial":
            binomial_modes(p, F)
        else:
            maximisers(p, F)
