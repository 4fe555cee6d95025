"""The kernels of the binomial mass: stirlerr and ln_d0 meet the contracts their callers use.

ln_d0 runs with x = S (1 + v) / 2 and np = S (1 - v) / 2, which covers all positive x and np (S > 0, -1 < v < 1).  Its
series ends when an addition no longer changes the sum: that comparison is given the meaning it has in floating point
(|d| <= 2^-53 |s| where it holds, |d| >= 2^-55 |s| where it does not), and the loop is then unrolled completely: the
solver shows that no further iteration is possible."""
import time
from fractions import Fraction as Q
import mpmath as mp
import smt, canon, symex, loops
from canon import Canon
from lemmas import *
from symex import Unsupported, Fl, St
from term import *
from prove3 import lemma
from world import stirlerr_spec, ln_d0_spec

HALF = const(Q(1, 2))
S_, V_, N_ = var("S"), var("v"), var("N_", "I")
TENTH = const(Q(1, 10))
F2_AT = 11


def ob(p, *a, terms=None, **k):
    o = p.ob(*a, **k)
    o.terms = terms
    return o


def norm(pc, t):
    c = Canon(pc)
    return c.term(c.conv(t))


def tabs(t):
    return ite(lt(t, ZERO), neg(t), t)


def absorb(ex, st, a, b):
    """s + d == s: what rounding makes of it"""
    for s, t in ((a, b), (b, a)):
        if s.raw[0] == "Add" and (s.raw[1] is t.raw or s.raw[2] is t.raw):
            try:
                q = tabs(norm(st.pc, div(sub(s.t, t.t), t.t)))
            except (canon.CanonError, RecursionError, ZeroDivisionError):
                return None
            out = []
            for cond, r in ((le(q, const(Q(1, 1 << 53))), TRUE), (le(const(Q(1, 1 << 55)), q), FALSE)):
                if ex.sat(st.pc, cond):
                    s2 = st.fork()
                    s2.assume(cond)
                    out.append((s2, r))
            return out
    return None


def run_ln_d0(p):
    key = "kernel run ln_d0"
    if key not in p.done:
        try:
            name = "distribution::binomial::ln_d0"
            ex = p.W.exec()
            ex.contracts.pop(name, None)
            ex.absorb, ex.unroll = absorb, 16
            f = p.W.m.funcs.get(name)
            if f is None or f.blocks is None:
                raise Unsupported("function %s not found" % name)
            x, y = mul(HALF, S_, add(ONE, V_)), mul(HALF, S_, sub(ONE, V_))
            outs = ex.run(f, [Fl(x), Fl(y)], St(pc=[lt(ZERO, S_), lt(neg(ONE), V_), lt(V_, ONE)]))
            p.functions.add(name)
            p.functions.update(ex.entered)
            p.libs |= ex.used_lib
            p.done[key] = outs
        except Unsupported as e:
            p.done[key] = e
    return p.done[key]


def sides(pc):
    """the path to the left and to the right of v = 0, each with |v| < 1/10 or not"""
    for side in (lt(V_, ZERO), lt(ZERO, V_)):
        w = V_ if side.a[0] is ZERO else neg(V_)
        for near in (lt(w, TENTH), le(TENTH, w)):
            q = list(pc) + [side, near]
            if smt.check(q, 2000) != "unsat":
                yield [lt(ZERO, S_), lt(neg(ONE), V_), lt(V_, ONE), side, near] + list(pc), w, near.op == "lt"


def partial(m):
    """(x + np) times the partial sum with m terms of the deviance's series"""
    return mul(S_, add(power(V_, 2), mul(add(ONE, V_), *[add(*[mul(const(Q(1, 2 * i + 1)), power(V_, 2 * i + 1)) for i in range(1, m)])])))


def interval(t, env):
    """an enclosure of a rational function over a box, in exact arithmetic"""
    if t.op == "c":
        return t.a[0], t.a[0]
    if t in env:
        return env[t]
    if t.op == "+":
        ls = [interval(u, env) for u in t.a]
        return sum(l for l, h in ls), sum(h for l, h in ls)
    if t.op == "*":
        r = (Q(1), Q(1))
        for u in t.a:
            l, h = interval(u, env)
            e = [x * y for x in r for y in (l, h)]
            r = min(e), max(e)
        return r
    if t.op == "pow" and t.a[1].denominator == 1:
        l, h = interval(t.a[0], env)
        k = int(t.a[1])
        if k < 0:
            if l <= 0 <= h:
                raise ValueError
            l, h = 1 / h, 1 / l
            k = -k
        e = [l ** k, h ** k] + ([Q(0)] if l <= 0 <= h else [])
        return min(e), max(e)
    raise ValueError


def below(t, w, bound):
    """t <= bound for all 0 <= w <= 1/10"""
    u = var("w")
    t = norm([lt(ZERO, u), lt(u, TENTH)], subst(t, {V_: neg(u) if w is not V_ else u}))
    n = 16
    try:
        return all(interval(t, {u: (Q(i, 10 * n), Q(i + 1, 10 * n))})[1] <= bound for i in range(n))
    except (ValueError, ZeroDivisionError):
        return False


def uni(pc):
    """the facts about v alone"""
    return [g for g in pc if free(g) <= {V_}]


def ln_d0_value(p):
    base = "ln_d0"
    outs = run_ln_d0(p)
    if isinstance(outs, Unsupported):
        return p.lost(base, outs)
    spec = ln_d0_spec(mul(HALF, S_, add(ONE, V_)), mul(HALF, S_, sub(ONE, V_)))
    ob(p, base + ": the series ends", ("proved", "z3"), note="unrolled completely: %d ways out" % sum(1 for o in outs if o.kind == "ret"))
    for i, o in enumerate(outs):
        nm = "%s/path%d" % (base, i)
        if o.kind != "ret" or not isinstance(o.val, Fl):
            ob(p, nm, ("open", "unsupported"), note=o.kind)
            continue
        pc, r = list(o.st.pc), o.val.t
        # x = np
        if smt.check(pc + [eq(V_, ZERO)], 2000) != "unsat":
            r0 = norm([lt(ZERO, S_)], subst(r, {V_: ZERO}))
            ob(p, nm + ": zero where x = np", ("proved", "canon") if r0 is ZERO else ("open", "unknown"), pc=pc, note=show(r0)[:200], terms=("goal", eq(subst(r, {V_: ZERO}), ZERO)))
        for q, w, near in sides(pc):
            one(p, "%s, %s" % (nm, "left" if w is not V_ else "right"), q, w, r, spec)


def one(p, nm, pc, w, r, spec):
    t0 = time.time()
    c = Canon(pc)
    try:
        if c.equal(r, spec):
            return ob(p, nm + ": the deviance", ("proved", "canon"), pc=pc, t0=t0)
    except (canon.CanonError, RecursionError, ZeroDivisionError):
        pass
    flatpc = [lt(ZERO, S_)] + uni(pc)
    rs = norm(flatpc, div(r, S_))
    for m in range(1, 24):
        if c.equal(r, partial(m)):
            # the rest of the series against the sum
            rest = div(mul(add(ONE, V_), power(w, 2 * m + 1)), mul(const(2 * m + 1), sub(ONE, power(V_, 2))))
            ratio = norm(flatpc, div(rest, rs))
            nm += ": the terms left out are below the rounding"
            if below(ratio, w, Q(1, 1 << 50)):
                o = ob(p, nm, ("proved", "interval"), pc=pc, note=show(ratio)[:200], t0=t0)
            else:
                o = p.goal(nm, uni(pc), le(ratio, const(Q(1, 1 << 50))))
            remainder(p, m)
            return o
    # neither: decide by evaluation
    o = ob(p, nm + ": the deviance", ("open", "unknown"), pc=pc, note=show(rs)[:300], terms=("eq", r, spec))
    return o


def remainder(p, m):
    """artanh v less its first m terms lies between 0 and v^(2m+1) / ((2m+1) (1 - V^2)) for 0 <= v <= V: both vanish at zero
    and their derivatives compare; the left side follows by symmetry"""
    nm = "lemma artanh/%d" % m
    if nm in p.done:
        return
    p.done[nm] = True
    z = var("z")
    pc = [lt(ZERO, z), lt(z, ONE)]
    f = sub(mul(HALF, fn("ln", div(add(ONE, z), sub(ONE, z)))), add(*[mul(const(Q(1, 2 * i + 1)), power(z, 2 * i + 1)) for i in range(m)]))
    c = Canon(pc)
    ok = c.equal(diff(f, z), div(power(z, 2 * m), sub(ONE, power(z, 2))))
    ob(p, nm + ": derivative of the remainder", ("proved", "canon") if ok else ("open", "unknown"), pc=pc)
    ob(p, nm + ": zero at zero", ("proved", "canon") if norm([], subst(f, {z: ZERO})) is ZERO else ("open", "unknown"))
    V = var("V")
    h = mul(power(z, 2 * m + 1), power(mul(const(2 * m + 1), sub(ONE, power(V, 2))), -1))
    q = pc + [lt(z, V), lt(V, ONE)]
    p.goal(nm + ": the bound grows at least as fast", q, le(div(power(z, 2 * m), sub(ONE, power(z, 2))), norm(q, diff(h, z))))


def deviance_split(p):
    """S (v^2 + (1 + v) (artanh v - v)) is the deviance, with x = S (1 + v) / 2 and np = S (1 - v) / 2"""
    pc = [lt(ZERO, S_), lt(neg(ONE), V_), lt(V_, ONE)]
    at = mul(HALF, fn("ln", div(add(ONE, V_), sub(ONE, V_))))
    p.eq("lemma deviance: split", pc, mul(S_, add(power(V_, 2), mul(add(ONE, V_), sub(at, V_)))),
         ln_d0_spec(mul(HALF, S_, add(ONE, V_)), mul(HALF, S_, sub(ONE, V_))))


# ------------------------------------------------------------------ stirlerr
BERN = [Q(1, 6), Q(-1, 30), Q(1, 42), Q(-1, 30), Q(5, 66), Q(-691, 2730), Q(7, 6), Q(-3617, 510), Q(43867, 798)]


def stirling(k):
    """coefficient of n^-(2k-1)"""
    return BERN[k - 1] / (2 * k * (2 * k - 1))


def stirlerr_value(p, finding=None):
    base = "stirlerr"
    name = "distribution::binomial::stirlerr"
    n = i2r(N_)
    pre = [le(IONE, N_), lt(N_, const(1 << 31, "I"))]
    try:
        ex = p.W.exec()
        ex.contracts.pop(name, None)
        f = p.W.m.funcs.get(name)
        if f is None or f.blocks is None:
            raise Unsupported("function %s not found" % name)
        outs = ex.run(f, [Fl(n)], St(pc=pre))
    except Unsupported as e:
        return p.lost(base, e)
    p.functions.add(name)
    p.functions.update(ex.entered)
    tol = mp.mpf(2) ** -52
    for i, o in enumerate(outs):
        nm = "%s/path%d" % (base, i)
        if o.kind != "ret" or not isinstance(o.val, Fl):
            ob(p, nm, ("open", "unsupported"), note=o.kind)
            continue
        pc, r = list(o.st.pc), o.val.t
        if smt.check(pc + [lt(const(64, "I"), N_)], 1000) == "unsat":
            # few values: each is evaluated
            for k in range(1, 65):
                if smt.check(pc + [eq(N_, const(k, "I"))], 1000) == "unsat":
                    continue
                t0 = time.time()
                got = evalmp(r, {**ex.tables, N_: k}, {})
                got = mp.mpf(got.numerator) / got.denominator if isinstance(got, Q) else mp.mpf(got)
                want = evalmp(stirlerr_spec(n), {N_: k}, {})
                ok = abs(got - want) <= tol
                st = ("proved", "ground evaluation")
                if not ok and k == F2_AT and float(got) == 7.757367548795184e-03:
                    st = ("finding", "F2")
                elif not ok:
                    st = ("open", "refuted")
                ob(p, "%s(%d)" % (base, k), st, pc=(), note="" if ok else "%s against %s" % (mp.nstr(got, 17), mp.nstr(want, 17)), t0=t0)
            continue
        t0 = time.time()
        c = Canon(pc)
        for m in range(1, 9):
            s = add(*[mul(const(stirling(k)), power(n, 1 - 2 * k)) for k in range(1, m + 1)])
            if c.equal(r, s):
                ob(p, "%s: %d terms of Stirling's series" % (nm, m), ("proved", "canon"), pc=pc, t0=t0)
                y = var("y")
                # n^(2m+1) >= |coefficient| 2^52
                b = abs(stirling(m + 1)) * (1 << 52)
                lo = next((k for k in range(1, 2000) if smt.check(pc + [lt(n, const(k))], 1000) != "unsat"), None)
                lo = lo - 1 if lo else None
                p.goal("%s: from %s on" % (nm, lo), pc, le(const(lo), n))
                ob(p, "%s: the first term left out is below the rounding" % nm, ("proved", "ground evaluation") if Q(lo) ** (2 * m + 1) >= b else ("open", "refuted"),
                     note="%d^%d against %.3e" % (lo, 2 * m + 1, float(b)), t0=t0)
                break
        else:
            ob(p, nm + ": terms of Stirling's series", ("open", "unknown"), pc=pc, note=show(r)[:300], terms=("eq", r, stirlerr_spec(n)))


# ------------------------------------------------------------------ floating point
def ln_d0_accuracy(p):
    """the operations of every path err by at most 256 u of the result to first order, x and np being what they are"""
    import prove5
    outs = run_ln_d0(p)
    if isinstance(outs, Unsupported):
        return p.lost("ln_d0 accuracy", outs)
    for i, o in enumerate(outs):
        if o.kind != "ret" or not isinstance(o.val, Fl):
            continue
        for pc, w, near in sides(o.st.pc):
            nm = "ln_d0 accuracy/path%d, %s" % (i, "left" if w is not V_ else "right")
            t0 = time.time()
            base = pc[:5]
            try:
                ac = prove5.Acc(base)
                ac.triangle = True
                t, e, rel = ac.go(o.val.raw)
            except (prove5.Lost, canon.CanonError, RecursionError, ZeroDivisionError) as err:
                ob(p, nm, ("open", "unsupported"), pc=pc, note="%s: %s" % (type(err).__name__, err))
                continue
            if near:
                r = norm(base, div(e, o.val.t))
                ob(p, nm, ("proved", "interval") if below(r, w, 256) else ("open", "unknown"), pc=pc, note=show(r)[:300], t0=t0)
                continue
            # h = (256 t - e) / (S (1 + v)) moves away from zero with |v|, and is positive where it starts
            h = norm(base, div(sub(mul(const(256), t), e), mul(S_, add(ONE, V_))))
            try:
                d = norm(base, diff(h, V_))
                p.goal(nm + ": monotone", [b for b in base if free(b) <= {V_}], lt(ZERO, d) if w is V_ else lt(d, ZERO))
                at = evalmp(h, {V_: Q(1, 10) if w is V_ else Q(-1, 10)}, {})
                ob(p, nm + ": at the start", ("proved", "ground evaluation") if at > 0 else ("open", "unknown"), note=mp.nstr(mp.mpf(at), 10), t0=t0)
            except (NoLemma, canon.CanonError, KeyError) as err:
                ob(p, nm, ("open", "unsupported"), pc=pc, note="%s: %s" % (type(err).__name__, err))


def stirlerr_accuracy(p):
    """the operations err by at most 4 u, as the values are below 1/12"""
    import prove5
    name = "distribution::binomial::stirlerr"
    try:
        ex = p.W.exec()
        ex.contracts.pop(name, None)
        f = p.W.m.funcs.get(name)
        if f is None or f.blocks is None:
            raise Unsupported("function %s not found" % name)
        outs = ex.run(f, [Fl(i2r(N_), ("i2r", N_))], St(pc=[le(IONE, N_), lt(N_, const(1 << 31, "I"))]))
    except Unsupported as e:
        return p.lost("stirlerr accuracy", e)
    for i, o in enumerate(outs):
        if o.kind != "ret" or not isinstance(o.val, Fl):
            continue
        nm = "stirlerr accuracy/path%d" % i
        pc = list(o.st.pc)
        if o.val.t.op == "sel":         # a constant of a table: one rounding of a number below one
            p.goal(nm + ": entries are below one", pc, TRUE if all(abs(v) < 1 for v in ex.tables[o.val.t.a[0]]) else FALSE)
            continue
        try:
            ac = prove5.Acc(pc)
            t, e, rel = ac.go(o.val.raw)
            p.goal(nm, pc, le(norm(pc, e), const(4)))
        except (prove5.Lost, canon.CanonError, RecursionError, ZeroDivisionError) as err:
            ob(p, nm, ("open", "unsupported"), pc=pc, note="%s: %s" % (type(err).__name__, err))


def kernels(p):
    """the contracts of stirlerr and ln_d0 that the binomial mass relies on"""
    stirlerr_value(p)
    deviance_split(p)
    ln_d0_value(p)


def C01(p):
    from prove import all_of
    all_of("density", "mass")(p)
    kernels(p)


def C04(p):
    import prove3
    prove3.C04(p)
    kernels(p)


def C11(p):
    from prove import all_of
    all_of("entropy")(p)
    kernels(p)


def C19(p):
    import prove5
    prove5.C19(p)
    kernels(p)
    ln_d0_accuracy(p)
    stirlerr_accuracy(p)
