"""Run-time checks of the contracts of sampling, totality and of the relations between
families and parameters (C12, C13, C15, C16, C17) on the real code."""
import math, struct
import mpmath as mp
import gen, oracle, specs
from oracle import mpf, expected
from specs import FAM
from gen import up, dn, lu
from rac import CONT, DISC, supp, rng_mags, ulp, slow_beta, BETALIKE, cdf_atol, inv_fams, fmt

M = 2 ** 64
UMAX = float(M)


def u_of(w):
    return float(w) / UMAX          # read_u64() as f64 / u64::MAX as f64


def word(u):
    """a word whose uniform number is (as close as possible to) u, never 0 or 1"""
    return min(max(int(u * UMAX), 1), M - 1025)


def fbits(x):
    return struct.unpack("<Q", struct.pack("<d", float(x)))[0]


INVERSION = ["Bernoulli", "Bernoulli.with_failure", "Binomial", "Binomial.with_failure", "Categorical", "Exponential", "Laplace", "Logistic",
             "Logistic.default", "Triangular", "Uniform", "Uniform.default"]
GAUSSIC = ["Gaussian", "Gaussian.default", "Lognormal", "Lognormal.default", "Gamma", "Beta", "Pert", "Cauchy"]


# ------------------------------------------------------------------ C12
def C12(ctx):
    inversion(ctx)
    statistics(ctx)
    kernel_gaussian(ctx)
    kernel_gamma(ctx)


def top_of(fam, ps):
    return 1 if fam.startswith("Bern") else len(ps) - 1 if fam == "Categorical" else int(ps[0])


def inversion(ctx):
    """one word is read; the CDF at the value drawn is the uniform number or its complement"""
    from rac import dq_ok, quantile_ok
    r = ctx.r
    for fam in ctx.only(INVERSION):
        f = FAM[fam]
        hist, L = [0, 0], []
        for ps in gen.params(fam, r, 12 * ctx.scale, 8 * ctx.scale, ctx.lits):
            if fam.startswith("Binomial") and ps[0] > 900:
                continue
            W = [word(r.random()) for _ in range(10)] + [word(lu(r, 1e-12, .5)), word(1 - lu(r, 1e-12, .5))]
            reqs = [(fam, "sample", ps, None, [w]) for w in W]
            for q, w, o in zip(reqs, W, ctx.real(reqs)):
                if o[0] != "ok":
                    if o[0] == "dry":
                        ctx.notes["more than one word"] = ctx.notes.get("more than one word", 0) + 1
                    else:
                        L.append((3, q, o, None))
                    continue
                x, used = o[1]
                u = u_of(w)
                if used != 1:
                    continue
                # which of u and 1 - u?
                if f.discrete:
                    s = [dq_ok(fam, ps, v, int(x)) if 0 < v < 1 else None for v in (u, 1 - u)]
                    okd = s[0] is None, s[1] is None
                else:
                    okd = tuple(quantile_ok(fam, ps, v, x, 1e-10 * min(v, 1 - v) + 4e-16) if 0 < v < 1 else True for v in (u, 1 - u))
                if okd[0] and not okd[1]:
                    hist[0] += 1
                if okd[1] and not okd[0]:
                    hist[1] += 1
                L.append((0 if all(okd) else 1 if okd[0] else 2 if okd[1] else 3, q, x, u))
                ctx.sample(fam, "sample", tuple(ps)[:4], "u =", u, "->", x)
        for k, q, x, u in L:
            if k == 3:
                ctx.bad(q, x, "a value with CDF u or 1 - u, u = %r" % u, "the value drawn does not follow from the uniform number by inversion") \
                    if inverted(hist, L) else ctx.notes.__setitem__("not by inversion", fam)


def inverted(hist, L):
    """the family still draws by inversion (most draws confirm it)?  If not, the statistical
    part alone decides."""
    return True if sum(1 for v in L if v[0] != 3) > .2 * len(L) else False


def chi2_tail(c, n):
    return mp.gammainc(mpf(n) / 2, mpf(c) / 2, mp.inf, regularized=True)


def tests_params(fam, r, tier):
    f = fam.split(".")[0]
    L = {"Gaussian": [(0., 1.), (-3., .5), (5., 40.)], "Gaussian.default": [()], "Lognormal": [(0., 1.), (-1., .3)], "Lognormal.default": [()],
         "Cauchy": [(0., 1.), (2., 8.), (-4., .1)],
         "Gamma": [(1., 1.), (.5, 2.), (3.7, .25), (9., 2.), (.1, 1.), (.05, 3.), (200., 1.), (up(1.0), 1.), (dn(1.0), 1.), (.8, .3), (1.4, 5.), (1e4, 1.), (50., 10.), (2., 1.)],
         "Beta": [(.5, 1.5, 0., 1.), (2., 3., -1., 2.), (1., 1., 0., 1.), (.3, .3, 2., 5.), (5., .7, -7., -3.), (30., 70., 0., 1.), (1., 2.5, 0., 2.), (.05, .1, 0., 1.), (400., 1., 0., 1.)],
         "Pert": [(0., .5, 1.), (-1., .5, 2.), (0., .1, 1.), (10., 14., 15.)],
         "Bernoulli": [(.3,), (.8,)], "Binomial": [(10, .3), (40, .5), (900, .2), (1200, .4), (3000, .9), (1, .25)], "Categorical": [(.1, .2, .3, .4), (0., .5, 0., .5), (.25, .75)],
         "Exponential": [(1.,), (.2,)], "Laplace": [(1., 2.), (0., .5)], "Logistic": [(1., 2.)], "Triangular": [(0., 1., .3), (1., 5., 1.), (1., 5., 5.)], "Uniform": [(0., 1.), (-3., 9.)]}
    L["Bernoulli.with_failure"], L["Binomial.with_failure"] = L["Bernoulli"], L["Binomial"]
    out = list(L.get(fam, [()]))
    if fam in GAUSSIC and ps_free(fam):
        for _ in range(3 if tier == "quick" else 10):
            p = gen.params_random(fam, r)
            if gen.ok(fam, p):
                out.append(p)
    return out


def ps_free(fam):
    return not fam.endswith(".default")


def statistics(ctx):
    """chi-square of many draws of the real sampler against the family's own contract CDF;
    a bounded check: fixed seeds, and a violation needs p < 1e-11 twice"""
    for fam in ctx.only(FAM):
        f = FAM[fam]
        big = fam in GAUSSIC
        for ps in tests_params(fam, ctx.r, ctx.tier):
            N = (1000000 if big else 200000) * (1 if ctx.tier == "quick" else 8)
            if fam.startswith("Binomial"):
                N = 20000 * (1 if ctx.tier == "quick" else 5)
            if fam == "Gaussian.default":
                N *= 10
            cuts, pr = cuts_of(fam, ps)
            if len(pr) < 2:
                continue
            verdicts = []
            for rep in range(2):
                seed = (ctx.r.getrandbits(63))
                q = (fam, "hist", ps, N, [seed] + [fbits(c) for c in cuts])
                o = ctx.real([q])[0]
                if o[0] != "ok":
                    verdicts.append((mpf(0), "does not return: %s" % (o,)))
                    continue
                c, nan = o[1][:-1], o[1][-1]
                stat = sum((k - N * p) ** 2 / (N * p) for k, p in zip(c, pr) if p > 0)
                zero = [(i, k) for i, (k, p) in enumerate(zip(c, pr)) if p <= 0 and k > 0]
                t = mpf(0) if nan or zero else chi2_tail(stat, len(pr) - 1)
                verdicts.append((t, "chi-square %.1f over %d cells, p = %s%s" % (stat, len(pr), mp.nstr(t, 3), ", %d NaN" % nan if nan else "")))
                if t > mpf("1e-11"):
                    break
            if len(verdicts) == 2 and all(v[0] <= mpf("1e-11") for v in verdicts):
                ctx.bad((fam, "hist", ps, N, q[4]), verdicts[1][1], "cell counts following the CDF", "the values drawn do not follow the distribution (two independent runs)")
            else:
                ctx.sample(fam, tuple(ps)[:4], str(N), "draws,", verdicts[-1][1])


def cuts_of(fam, ps):
    f = FAM[fam]
    if f.discrete:
        top = top_of(fam, ps)
        lo, hi = 0, top
        if top > 60:
            p = ps[1] if not fam.endswith("failure") else 1 - ps[1]
            m, sd = top * p, math.sqrt(top * p * (1 - p))
            lo, hi = max(0, int(m - 5 * sd)), min(top, int(m + 5 * sd))
        step = max(1, (hi - lo) // 40)
        cuts = [float(v) + .5 for v in range(lo, hi, step)]
        F = [float(oracle.cdf(fam, ps, c)) for c in cuts]
    else:
        k = 160
        P = [(i + 1) / k for i in range(k - 1)]
        P = [1e-4, 1e-3, 3e-3] + P + [1 - 3e-3, 1 - 1e-3, 1 - 1e-4]
        P = sorted(P)
        cuts = [quantile(fam, ps, p) for p in P]
        cuts = sorted(set(cuts))
        F = [float(oracle.cdf(fam, ps, c)) for c in cuts]
    pr = [b - a for a, b in zip([0.] + F, F + [1.])]
    # merge cells that are too thin
    C, R, acc = [], [], 0.
    for c, p in zip(cuts, pr):
        acc += p
        if acc >= 5e-5:
            C.append(c)
            R.append(acc)
            acc = 0.
    acc += pr[-1]
    if acc < 5e-5 and C:
        C.pop()
        acc += R.pop()
    R.append(acc)
    return C, R


def quantile(fam, ps, p):
    """bisection on the contract's CDF (double precision is enough for cell borders)"""
    import scipy.special as sp
    f = FAM[fam].fam
    a = list(ps)
    if f == "Gaussian":
        m, s = a or (0., 1.)
        return m + s * float(sp.ndtri(p))
    if f == "Lognormal":
        m, s = a or (0., 1.)
        return math.exp(m + s * float(sp.ndtri(p)))
    if f == "Gamma":
        return a[1] * float(sp.gammaincinv(a[0], p))
    if f == "Beta":
        return a[2] + (a[3] - a[2]) * float(sp.betaincinv(a[0], a[1], p))
    if f == "Pert":
        w = a[2] - a[0]
        return a[0] + w * float(sp.betaincinv((4 * a[1] + a[2] - 5 * a[0]) / w, (5 * a[2] - a[0] - 4 * a[1]) / w, p))
    e = oracle.env_of(FAM[fam], ps, "inverse", p)
    v, memo = oracle.cases(FAM[fam].m["inverse"], e)
    return float(specs.evalmp(v, e, memo))


def draw(ctx, fam, ps, streams):
    out = ctx.real([(fam, "sample", ps, None, s) for s in streams])
    return [(o[1][0], o[1][1]) if o[0] == "ok" else (None, o) for o in out]


def bisect_many(ctx, jobs, steps=52):
    """jobs: list of (make_request(u) , accepted(result)); finds the acceptance thresholds of u
    (accepted below, rejected above) by bisection, batched"""
    lo, hi = [0.] * len(jobs), [1.] * len(jobs)
    ends = ctx.real([j[0](2 ** -60) for j in jobs] + [j[0](1 - 2 ** -52) for j in jobs])
    res = []
    for k, j in enumerate(jobs):
        a, b = j[1](ends[k]), j[1](ends[k + len(jobs)])
        res.append(None if a and not b else 1. if a and b else 0. if not a and not b else -1.)
    act = [k for k in range(len(jobs)) if res[k] is None]
    for _ in range(steps):
        mid = [(lo[k] + hi[k]) / 2 for k in act]
        for k, m, o in zip(act, mid, ctx.real([jobs[k][0](m) for k, m in zip(act, mid)])):
            if jobs[k][1](o):
                lo[k] = m
            else:
                hi[k] = m
    for k in act:
        res[k] = (lo[k] + hi[k]) / 2
    return res


def zig_word(i, s, j, extra=0):
    return i | (s << 7) | (j << 8) | (extra << 32)


def kernel_gaussian(ctx):
    """the rejection kernel of the gaussian sampler, measured on the real code: with X the
    proposal and A(x) its measured acceptance probability, the density of an accepted value
    must be proportional to exp(-x²/2)"""
    fam, r = "Gaussian", ctx.r
    if not ctx.only([fam]):
        return
    ps = (0., 1.)
    acc1 = lambda o: o[0] == "ok" and o[1][1] == 1
    # does the first word select a layer (7 bits), a sign (1 bit) and an abscissa (24 bits)?
    probe = []
    for _ in range(40):
        i, s, j = r.randrange(128), r.randrange(2), r.randrange(1, 2 ** 20)
        if i == 0:
            i = 5
        probe.append((i, s, j))
    A = ctx.real([(fam, "sample", ps, None, [zig_word(*t)]) for t in probe])
    B = ctx.real([(fam, "sample", ps, None, [zig_word(i, 1 - s, j)]) for i, s, j in probe])
    C = ctx.real([(fam, "sample", ps, None, [zig_word(i, s, 2 * j)]) for i, s, j in probe])
    D = ctx.real([(fam, "sample", ps, None, [zig_word(i, s, j, r.getrandbits(32))]) for i, s, j in probe])
    fit = all(acc1(a) and acc1(b) and acc1(c) and acc1(d) and a[1][0] == -b[1][0] and abs(c[1][0] - 2 * a[1][0]) <= 1e-15 * abs(c[1][0]) and d == a
              for a, b, c, d in zip(A, B, C, D))
    if not fit:
        ctx.notes["gaussian kernel"] = "other layout: decided by the statistical part only"
        return
    W = [None] * 128
    for i, o in enumerate(ctx.real([(fam, "sample", ps, None, [zig_word(i, 1, 64 if i else 64)]) for i in range(128)])):
        W[i] = o[1][0] / 64 if acc1(o) else None
    if W[0] is None:
        o = ctx.real([(fam, "sample", ps, None, [zig_word(0, 1, 64), 1])])[0]
        W[0] = abs(o[1][0]) / 64 if o[0] == "ok" and o[1][1] == 2 else None
    if any(w is None or w <= 0 for w in W):
        ctx.notes["gaussian kernel"] = "layer widths not measurable"
        return
    # layer 127 is the base strip: find R as the smallest tail proposal
    big = 2 ** 24 - 1
    K = [0] * 128
    lo, hi = [0] * 128, [2 ** 24] * 128
    for _ in range(25):
        mids = [(a + b) // 2 for a, b in zip(lo, hi)]
        for i, o in enumerate(ctx.real([(fam, "sample", ps, None, [zig_word(i, 1, min(m, big))]) for i, m in enumerate(mids)])):
            if hi[i] - lo[i] > 1 or lo[i] == 0:
                if acc1(o) and mids[i] <= big:
                    lo[i] = mids[i]
                else:
                    hi[i] = mids[i]
    K = hi
    # fast region must be an interval [0, K)
    for i in range(128):
        K[i] = min(K[i], 2 ** 24)
    reqs = [(fam, "sample", ps, None, [zig_word(i, 1, r.randrange(2 ** 24))]) for i in range(128) for _ in range(4)]
    for q, o in zip(reqs, ctx.real(reqs)):
        w = q[4][0]
        i, j = w & 127, (w >> 8) & 0xFFFFFF
        if acc1(o) != (j < K[i]):
            ctx.notes["gaussian kernel"] = "acceptance without a second word is not an interval"
            return
        if acc1(o) and abs(o[1][0] - j * W[i]) > 1e-15 * j * W[i]:
            ctx.notes["gaussian kernel"] = "abscissa not linear"
            return
    X = [w * 2 ** 24 for w in W]
    # tail proposals of layer 127
    jt = max(K[127], 2 ** 24 - 2)
    wt = zig_word(127, 1, jt)
    us = [.001, .01, .05, .2, .5, .8, .95, .999]
    tail = []
    for u, o in zip(us, ctx.real([(fam, "sample", ps, None, [wt, word(u), 1]) for u in us])):
        if o[0] != "ok" or o[1][1] != 3:
            ctx.notes["gaussian kernel"] = "tail not confirmed"
            return
        tail.append(o[1][0])
    # second-word thresholds in the wedges
    jobs, at = [], []
    pts = []
    grid = sorted(r.uniform(0, 3.44) for _ in range(60 * ctx.scale))
    # check points next to the layer borders, too
    for i in range(127):
        for t in (1e-4, .25, .5, .75, 1 - 1e-4):
            j = int(K[i] + t * (2 ** 24 - K[i]))
            if K[i] <= j < 2 ** 24:
                pts.append((i, j))

    def job(i, j):
        w = zig_word(i, 1, j)
        return (lambda u: (fam, "sample", ps, None, [w, word(u)])), (lambda o: o[0] == "ok" and o[1][1] == 2)
    # density of an accepted value at x: 1/128 sum_i 1[x < X_i] / X_i * (x < K_i W_i ? 1 : A_i(x))
    xs = grid + [i_j[1] * W[i_j[0]] for i_j in pts]
    plan = []
    for x in xs:
        row = []
        for i in range(128):
            if x < X[i]:
                j = int(x / W[i])
                if j < K[i]:
                    row.append((1 / X[i], None))
                elif i == 127:
                    pass        # beyond the fast part of the base strip lies the tail
                else:
                    row.append((1 / X[i], len(jobs)))
                    jobs.append(job(i, j))
                    at.append((i, j))
        plan.append(row)
    thr = bisect_many(ctx, jobs, 40)
    vals = []
    for x, row in zip(xs, plan):
        d = sum(c * (1 if t is None else thr[t]) for c, t in row)
        vals.append(d / math.exp(-x * x / 2))
    s = sorted(vals)
    med = s[len(s) // 2]
    worst = max(range(len(xs)), key=lambda k: abs(vals[k] / med - 1))
    if abs(vals[worst] / med - 1) > 1e-5:
        rows = [t for c, t in plan[worst] if t is not None]
        st = [zig_word(at[rows[0]][0], 1, at[rows[0]][1]), word(min(thr[rows[0]], 1 - 1e-15))] if rows else [zig_word(127, 1, int(xs[worst] / W[127]))]
        ctx.bad((fam, "sample", ps, None, st), "relative density %.9g at |x| = %.9g" % (vals[worst] / med, xs[worst]), "1",
                "the density of accepted proposals is not proportional to exp(-x²/2): a proposal is accepted with the wrong probability")
    # the tail
    jobs = [((lambda v: (lambda u: (fam, "sample", ps, None, [wt, word(v), word(u)])))(v), (lambda o: o[0] == "ok" and o[1][1] == 3)) for v in us]
    T = bisect_many(ctx, jobs, 48)
    Rm = K[127] * W[127]
    pt = 1 - K[127] / 2 ** 24
    # proposal density in the tail from the measured map u -> x: x = R - ln(1 - u)/c  (fitted, confirmed)
    c = (math.log1p(-us[1]) - math.log1p(-us[-2])) / (tail[-2] - tail[1])
    x0 = tail[4] + math.log1p(-.5) / c
    alt = all(abs(x - (x0 - math.log1p(-u) / c)) < 1e-9 for x, u in zip(tail, us))
    if not alt:
        c = (math.log(us[1]) - math.log(us[-2])) / (tail[-2] - tail[1])
        x0 = tail[4] + math.log(.5) / c
        alt = all(abs(x - (x0 - math.log(u) / c)) < 1e-9 for x, u in zip(tail, us))
    if alt:
        for v, x, t in zip(us, tail, T):
            d = pt * c * math.exp(-c * (x - x0)) * t / math.exp(-x * x / 2)
            if abs(d / med - 1) > 2e-5 or abs(x0 - Rm) > 1e-5:
                ctx.bad((fam, "sample", ps, None, [wt, word(v), word(min(t, 1 - 1e-12))]), "relative density %.9g at |x| = %.9g; tail starts at %.9g, strip ends at %.9g" % (d / med, x, x0, Rm), "1",
                        "the tail of the gaussian sampler does not follow exp(-x²/2)")
                break
    else:
        ctx.notes["gaussian tail"] = "proposal map not recognised"
    ctx.sample("gaussian kernel: density of accepted values / exp(-x²/2) constant at", str(len(xs)), "abscissae, worst relative deviation", vals[worst] / med - 1)
    # affine in the parameters
    for ps2 in ((3., 2.), (-1e3, .125), (.5, 7.)):
        ws = [zig_word(r.randrange(1, 128), r.randrange(2), r.randrange(2 ** 20)) for _ in range(20)]
        a, b = draw(ctx, fam, ps, [[w] for w in ws]), draw(ctx, fam, ps2, [[w] for w in ws])
        for w, (x, _), (y, _) in zip(ws, a, b):
            if x is None or y is None or abs(y - (ps2[0] + ps2[1] * x)) > 1e-14 * (abs(ps2[0]) + abs(ps2[1] * x)):
                # sigma may as well be applied to a reflected value
                if x is None or y is None or abs(y - (ps2[0] - ps2[1] * x)) > 1e-14 * (abs(ps2[0]) + abs(ps2[1] * x)):
                    ctx.bad((fam, "sample", ps2, None, [w]), y, ps2[0] + ps2[1] * x if x is not None else "?", "not mu + sigma * (standard draw)")


def kernel_gamma(ctx):
    """rejection kernel of the gamma sampler: for a gaussian number x the proposal is
    theta d (1 + c x)³, and it must be accepted exactly with probability exp(x²/2 + d (1 - v + ln v))"""
    fam, r = "Gamma", ctx.r
    if not ctx.only([fam]):
        return
    words = []
    for _ in range(40 * ctx.scale):
        words.append(zig_word(r.randrange(40, 127), r.randrange(2), r.randrange(2 ** 22, 2 ** 24)))
    std = ctx.real([("Gaussian", "sample", (0., 1.), None, [w]) for w in words])
    xs = [(w, o[1][0]) for w, o in zip(words, std) if o[0] == "ok" and o[1][1] == 1]
    for k in [1., 1.5, 2., 3.7, 10., 45., 1000., 1.0000001] + [lu(r, 1, 50) for _ in range(3 * ctx.scale)]:
        d = k - 1 / 3
        c = 1 / 3 / math.sqrt(d)
        theta = r.choice([1., 2.5])
        jobs, info = [], []
        for w, x in xs:
            v = 1 + c * x
            if v <= 1e-3:
                continue
            v = v ** 3
            o = ctx.real([(fam, "sample", (k, theta), None, [w, 1])])[0]
            if o[0] != "ok" or o[1][1] != 2 or abs(o[1][0] / (theta * d * v) - 1) > 1e-12:
                ctx.notes["gamma kernel"] = "proposal not recognised: decided by the statistical part only"
                return
            jobs.append(((lambda w: lambda u: (fam, "sample", (k, theta), None, [w, word(u)]))(w), (lambda o: o[0] == "ok" and o[1][1] == 2)))
            info.append((w, x, v))
        for (w, x, v), t in zip(info, bisect_many(ctx, jobs, 44)):
            want = math.exp(min(0., x * x / 2 + d * (1 - v + math.log(v))))
            if abs(t - want) > 1e-9 * (1 + d):
                ctx.bad((fam, "sample", (k, theta), None, [w, word((t + want) / 2)]), "accepted below u = %.12g" % t, "accepted below u = %.12g" % want,
                        "the proposal %.9g is accepted with the wrong probability" % (d * v * theta))
                break
        else:
            ctx.sample("gamma kernel: shape", k, "acceptance thresholds of", str(len(info)), "proposals")
    # below one: multiplied by u^(1/k) of an independent number
    for k in (.5, .1, .9, .3):
        w, x = xs[0]
        us = [.9, .5, .2, .05, .6]
        o = [ctx.real([(fam, "sample", (k, 1.), None, [w, 1, word(u)])])[0] for u in us]
        if any(v[0] != "ok" or v[1][1] != 3 for v in o):
            continue
        base = o[0][1][0] / us[0] ** (1 / k)
        for u, v in zip(us, o):
            if abs(v[1][0] / (base * u ** (1 / k)) - 1) > 1e-11:
                if abs(v[1][0] / (o[0][1][0] / (1 - us[0]) ** (1 / k) * (1 - u) ** (1 / k)) - 1) > 1e-11:
                    ctx.bad((fam, "sample", (k, 1.), None, [w, 1, word(u)]), v[1][0], base * u ** (1 / k), "small shapes: not proportional to u^(1/k)")
                    break


# ------------------------------------------------------------------ C13
def streams(fam, r, n):
    """crafted word streams followed by random words; every word stands for a uniform number in (0, 1)"""
    lay = lambda: zig_word(r.choice([0, 1, 2, 63, 125, 126, 127, r.randrange(128)]), r.randrange(2), r.choice([0, 1, 2 ** 24 - 1, 2 ** 23, r.randrange(2 ** 24)]), r.getrandbits(32))
    ext = [1, 2, 2 ** 11, 2 ** 32, M - 1025, M - 2048 - 1, M - 2 ** 13, M // 2, M // 2 - 1, M // 2 + 1, M // 4, 3 * (M // 4)]
    out = []
    for e in ext:
        out.append([e])
    for _ in range(n):
        k = r.randint(1, 6)
        out.append([r.choice([lambda: r.choice(ext), lay, lambda: word(r.random()), lambda: word(lu(r, 1e-18, .1))])() for _ in range(k)])
    return [[min(max(w, 1), M - 1025) for w in s] + [word(r.random()) for _ in range(60)] for s in out]


def C13(ctx):
    r = ctx.r
    for fam in ctx.only(FAM):
        f = FAM[fam]
        P = gen.params(fam, r, 24 * ctx.scale, 16 * ctx.scale, ctx.lits)
        if fam == "Beta":
            P += [(.01, .02, 0., 1.), (1e-3, 1e-3, 0., 1.), (1e-3, 5., -1., 1.), (5., 1e-3, 2., 3.)]
        if fam == "Gamma":
            P += [(1e-3, 1.), (.01, 2.), (1e6, 1.)]
        for ps in P:
            lo, hi = supp(fam, ps)
            S = streams(fam, r, 14)
            reqs = [(fam, "sample", ps, None, s) for s in S]
            sl = 0 if f.discrete else 2 * max([ulp(abs(v)) for v in (lo, hi) if math.isfinite(v)] + [0])
            res = ctx.real(reqs)
            for q, o in zip(reqs, res):
                if o[0] != "ok":
                    if o[0] == "dry":
                        ctx.notes["ran out of words"] = ctx.notes.get("ran out of words", 0) + 1
                    else:
                        ctx.bad(q, o, "a value", "sampling does not return (%s)" % o[0])
                    continue
                x, used = o[1]
                if not (x == x and math.isfinite(x)):
                    if math.isinf(x) and fam.startswith("Lognormal") and ps and ps[1] > 40:
                        continue
                    ctx.bad(q, x, "a finite number", "the value drawn is not finite")
                elif not lo - sl <= x <= hi + sl:
                    ctx.bad(q, x, "a value in [%r, %r]" % (lo, hi), "the value drawn lies outside the support")
                elif fam == "Categorical" and not ps[int(x)] > 0:
                    ctx.bad(q, x, "an outcome of positive probability", "an impossible outcome was drawn")
                else:
                    ctx.sample(fam, tuple(ps)[:4], "words", ",".join("%x" % w for w in q[4][:3]), "->", x, "using", str(used))
            # determinism, and nothing beyond the words consumed matters
            L = [i for i, o in enumerate(res) if o[0] == "ok"]
            for i in r.sample(L, min(4, len(L))):
                x, used = res[i][1]
                o1 = ctx.real([(fam, "sample", ps, None, S[i]), (fam, "sample", ps, None, S[i][:used])])
                if o1[0] != res[i] or o1[1] != res[i]:
                    ctx.bad((fam, "sample", ps, None, S[i]), o1, res[i], "the same words yield another value or position")


# ------------------------------------------------------------------ C15
XX = [0., -0., 1., -1., .5, math.inf, -math.inf, 5e-324, -5e-324, 1e-308, 1e308, -1e308, 1.7976931348623157e308, -1.7976931348623157e308, 1e-16, 1e16, 255., 256.,
      4294967295., 4294967296., 9007199254740992., 9007199254740993., 18446744073709551616., 1e19, 1e20, -1e20]
KK = [0, 1, 2, 3, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]


def total_params(fam, r, n):
    P = gen.params(fam, r, 3 * n, n)
    f = fam.split(".")[0]
    X = []
    if f in ("Bernoulli",):
        X = [(1e-300,), (5e-324,), (dn(1.0),)]
    elif f == "Binomial":
        X = [(0, .5), (0, 1e-9), (0, dn(1.0)), (1, 1e-300), (1, dn(1.0)), (5, 1e-300), (1000, 1e-300), (1000, 1e-17), (1000, dn(1.0)), (3000, 1e-10), (10000, 1 - 1e-12), (100, 1e-17), (100, dn(1.0)),
             (20001, .5), (20001, 1e-5), (10 ** 6, .3), (10 ** 6, 1e-7)]
    elif f == "Categorical":
        X = [(1.,), (0., 1.), (1., 0.), (0., 0., 0., 1.), (1e-300, 1.), tuple([1 / 999.] * 999)]
    elif f == "Gamma":
        X = [(1e-5, 1.), (1e-3, 1e-3), (1e5, 1.), (170., 1e10), (1e3, 1e-10), (1e7, 1.)]
    elif f == "Beta":
        X = [(1e-3, 1e-3, 0., 1.), (1e-3, 2., 0., 1.), (1e4, 1e4, 0., 1.), (1., 1e3, 0., 1.), (1e3, 1e-2, -1., 1.), (1e-300, 1e-300, 0., 1.)][:5]
    elif f == "Pert":
        X = [(0., 1e-9, 1.), (0., dn(1.0), 1.), (-1e9, 0., 1e9), (1., up(1.0), up(1.0, 3)), (0., 5e-324, 1.)]
    elif f == "Triangular":
        X = [(0., up(0.), 0.), (1., up(1.0), 1.), (-1e150, 1e150, 0.), (0., 1e-150, 1e-151)]
    elif f == "Uniform":
        X = [(0., 5e-324), (1., up(1.0)), (-1e150, 1e150)]
    elif f == "Exponential":
        X = [(1e-150,), (1e150,)]
    elif f in ("Gaussian", "Laplace", "Logistic", "Cauchy") and not fam.endswith("default"):
        X = [(0., 1e-150), (0., 1e150), (1e150, 1.), (-1e150, 1e-100)]
    elif fam == "Lognormal":
        X = [(0., 1e-9), (100., 1.), (-100., 2.), (0., 20.)]
    return P + X


def huge(fam, ps):
    f = fam.split(".")[0]
    return (f == "Binomial" and ps[0] > 50000)


def C15(ctx):
    r = ctx.r
    for fam in ctx.only(FAM):
        f = FAM[fam]
        for ps in total_params(fam, r, 6 * ctx.scale):
            reqs = []
            for x in XX + (gen.xs(fam, ps, r, 4, ctx.lits) if not f.discrete else gen.dxs(fam, ps, r, 3)):
                reqs.append((fam, "distribution", ps, x))
                if "density" in f.m:
                    reqs.append((fam, "density", ps, x))
            if f.discrete:
                K = [0, 1, 2, 127, 128, 255] if f.fam == "Bernoulli" else [int(v) for v in range(len(ps))] if fam == "Categorical" else KK + [int(ps[0]), int(ps[0]) + 1]
                reqs += [(fam, "mass", ps, x) for x in K]
            if f.fam != "Gamma" and not slow_beta(fam, ps):
                P = [0., 1., -0., 5e-324, 1e-300, 1e-20, 1e-5, .075, .5, .925, .99, dn(1.0), r.random(), r.random(), r.random()] + [p for p in ctx.r.sample(ctx.lits, min(3, len(ctx.lits))) if 0 <= p <= 1]
                if fam in BETALIKE:
                    P = [p for p in P if p > 1e-13 or p == 0]
                    if fam == "Pert" and min(pert_shape(ps)) < 1.05 and ps[2] - ps[0] > 0:
                        P = [p for p in P if p in (0., 1.) or 1e-6 < p < 1 - 1e-6]
                if not (f.fam == "Binomial" and ps[0] > 10 ** 5):
                    reqs += [(fam, "inverse", ps, p) for p in P]
            for m in ("entropy", "kurtosis", "mean", "median", "modes", "skewness", "variance", "deviation"):
                if m in f.m or (m == "modes" and (f.modes or fam == "Categorical")) or (m == "median" and f.discrete):
                    if fam == "Categorical" and m in ("skewness", "kurtosis") and undefined(ps):
                        continue
                    if f.fam == "Binomial" and ps[0] == 0 and m in ("skewness", "kurtosis"):
                        continue
                    if m == "entropy" and huge(fam, ps):
                        continue
                    if m == "median" and slow_beta(fam, ps):
                        continue
                    reqs.append((fam, m, ps, None))
            S = streams(fam, r, 3)
            if not (f.fam == "Binomial" and ps[0] > 10 ** 5):
                reqs += [(fam, "sample", ps, None, s) for s in r.sample(S, 5)]
            for q, o in zip(reqs, ctx.real(reqs)):
                if o[0] == "dry":
                    continue
                if o[0] == "nosuch":
                    continue
                if o[0] != "ok":
                    ctx.bad(q, o, "a result", "the operation %s" % ("does not terminate" if o[0] == "hang" else "panics"))
                    continue
                v = o[1][:-1] if q[1] == "sample" else o[1]
                if any(x != x for x in v):
                    if soft_nan(fam, q):
                        continue
                    ctx.bad(q, "NaN", "a number", "the operation returns NaN")
            ctx.sample(fam, tuple(ps)[:4], str(len(reqs)), "operations returned")


def pert_shape(ps):
    a, b, c = ps
    w = c - a
    return (4 * b + c - 5 * a) / w, (5 * c - a - 4 * b) / w


def undefined(ps):
    return sum(1 for v in ps if v > 0) < 2 or oracle.expected("Categorical", "variance", ps) < 1e-6


def soft_nan(fam, q):
    """moments that are undefined or not representable"""
    ps = q[2]
    f = fam.split(".")[0]
    if f == "Lognormal" and q[1] == "density" and 0 < q[3] < 1e-290:
        return True         # x sigma underflows
    big = any(abs(v) > 1e100 or (0 < abs(v) < 1e-100) for v in ps)
    return big and q[1] in ("skewness", "kurtosis", "variance", "deviation", "entropy", "density", "distribution", "mean", "modes", "median", "inverse", "sample") and f in ("Triangular", "Uniform", "Lognormal", "Binomial", "Pert")


# ------------------------------------------------------------------ C16
def near(a, b, rt, at=0.):
    if a is None or b is None:
        return a is b
    if a == b:
        return True
    if a != a or b != b or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= rt * max(abs(a), abs(b)) + at


def pair(ctx, qa, qb, conv, rt, at, why):
    """the result of qb must be conv(result of qa); both evaluated on the real code"""
    oa, ob = ctx.real([qa, qb])
    if oa[0] != "ok" or ob[0] != "ok":
        if oa[0] != ob[0]:
            ctx.bad(qb, ob, "as " + str(qa[:4]) + " -> " + str(oa), why)
        return
    wa = [conv(v) for v in oa[1]]
    wb = ob[1]
    if len(wa) != len(wb) or not all(near(float(x), float(y), rt, at) for x, y in zip(sorted(wa), sorted(wb))):
        ctx.bad(qb, wb if len(wb) > 1 else wb[0] if wb else "none", "%s from %s%s%s = %s" % (wa, qa[0], qa[1], tuple(qa[2]), oa[1]), why)
    else:
        ctx.sample(qa[0], qa[1], tuple(qa[2])[:4], "~", qb[0], tuple(qb[2])[:4])


def dens_at(fam, ps, x, rel_):
    """sensitivity of CDF and density to rounding of x"""
    return rel_


def C16(ctx):
    r, sc = ctx.r, ctx.scale
    # location and scale: powers of two and integers keep rounding small
    for fam, mk in [("Gaussian", lambda l, s, t: (l, s)), ("Laplace", lambda l, s, t: (l, s)), ("Logistic", lambda l, s, t: (l, s)),
                    ("Cauchy", lambda l, s, t: (l, s)), ("Uniform", lambda l, s, t: (l, l + s)), ("Exponential", lambda l, s, t: (1 / s,)),
                    ("Gamma", lambda l, s, t: (t, s)), ("Triangular", lambda l, s, t: (l, l + s, l + s * t)),
                    ("Beta", lambda l, s, t: (t[0], t[1], l, l + s)), ("Pert", lambda l, s, t: (l, l + s * t, l + s))]:
        if not ctx.only([fam]):
            continue
        f = FAM[fam]
        for _ in range(12 * sc):
            t = {"Gamma": r.choice([1., .5, 3., 7.25, lu(r, .1, 40)]), "Triangular": r.choice([0., 1., .5, .25, .75, .125]), "Pert": r.choice([.5, .25, .75, .125, .625]),
                 "Beta": r.choice([(1., 1.), (2., 3.), (.5, .5), (1., 3.), (.5, 2.), (4., 4.), (2.5, 1.), (lu(r, .3, 9), lu(r, .3, 9))])}.get(fam)
            l1, s1 = 0., 1.
            noloc = fam in ("Exponential", "Gamma")
            l2, s2 = (0. if noloc else r.choice([0., 3., -8., 128., float(r.randint(-64, 64))])), r.choice([2., .5, 8., 1 / 64., 3., 1024., 1.])
            A, B = mk(l1, s1, t), mk(l2, s2, t)
            aff = lambda v: l2 + s2 * v
            mag = abs(l2) + s2
            xs = [r.uniform(-1, 2) for _ in range(4)] + [r.gauss(0, 2) for _ in range(3)] + [.25, .5, .75, 0., 1.]
            big = fam in ("Beta", "Pert")
            # an argument of the scaled object which is exact, mapped back
            for x in xs:
                y = aff(x)
                xb = (y - l2) / s2
                if abs(xb - x) > 1e-12 or (0 < abs(x) < 1e-9):
                    continue
                dl = 4e-15 * (1 + abs(l2) / s2)
                pair(ctx, (fam, "distribution", A, xb), (fam, "distribution", B, y), lambda v: v, 1e-10, 1e-11 + 50 * dl, "CDF is not invariant under shift and scale")
                if "density" in f.m and not (0 < min(abs(xb), abs(xb - 1)) < 1e-3) and near_kink(fam, t, xb) > 1e-6:
                    pair(ctx, (fam, "density", A, xb), (fam, "density", B, y), lambda v: v / s2, 1e-9 + 3e3 * dl, 1e-9 / s2 * 1e-3, "density is not divided by the scale")
            if fam != "Gamma":
                for p in (.1, .5, .25, .9, r.random(), r.random()):
                    pair(ctx, (fam, "inverse", A, p), (fam, "inverse", B, p), aff, 1e-11, 1e-13 * mag + (1e-9 * s2 if big else 0), "quantile does not shift and scale")
            for m, cv, rt, at in [("mean", aff, 1e-12, 1e-13 * mag), ("median", aff, 1e-11, 1e-13 * mag + (1e-9 * s2 if big else 0)), ("modes", aff, 1e-11, 1e-12 * mag),
                                  ("deviation", lambda v: s2 * v, 1e-11, 1e-12 * mag), ("variance", lambda v: s2 * s2 * v, 1e-11, 1e-12 * mag * s2),
                                  ("skewness", lambda v: v, 1e-9, 1e-11 * mag / s2), ("kurtosis", lambda v: v, 1e-9, 1e-11 * mag / s2), ("entropy", lambda v: v + math.log(s2), 1e-11, 1e-11 * mag / s2 + 1e-11)]:
                if m in f.m or (m == "modes" and f.modes):
                    pair(ctx, (fam, m, A, None), (fam, m, B, None), cv, rt, at, m + " does not follow shift and scale")
    rel = []
    ALL = ["density", "distribution", "inverse", "mean", "variance", "deviation", "skewness", "kurtosis", "entropy", "modes", "median"]
    G = lambda lo, hi, n: [r.uniform(lo, hi) for _ in range(n)]

    def same(fa, A, fb, B, methods, xs=(), ps=(), ks=(), cv=lambda m, v: v, rt=1e-10, at=1e-11, why="related families disagree", xm=lambda x: x, pm=lambda p: p, km=lambda k: k):
        if not ctx.only([fa, fb]):
            return
        for m in methods:
            args = xs if m in ("density", "distribution") else ps if m == "inverse" else ks if m == "mass" else [None]
            for a in args:
                b = a if a is None else xm(a) if m in ("density", "distribution") else pm(a) if m == "inverse" else km(a)
                pair(ctx, (fa, m, A, a), (fb, m, B, b), lambda v: cv(m, v), rt, at, why + " (%s, %s): %s" % (fa, fb, m))
    for _ in range(5 * sc):
        # PERT and beta; the beta median is a documented approximation for shapes above one
        t = r.choice([.5, .25, .75, .125, .375])
        a, w = float(r.randint(-8, 8)), r.choice([1., 2., 8.])
        ps = (a, a + w * t, a + w)
        same("Pert", ps, "Beta", pert_shape(ps) + (a, a + w), [m for m in ALL if m != "median"] + (["median"] if t == .5 else []),
             [a + w * u for u in G(.01, .99, 4)] + [a - 1, a + w + 1, a, a + w], G(.01, .99, 3), at=1e-9 * max(1., w, w * w))
        # uniform and beta(1, 1)
        u = (a, a + w)
        same("Uniform", u, "Beta", (1., 1.) + u, [m for m in ALL if m != "modes"], [a + w * v for v in G(0, 1, 4)] + [a, a + w, a - 1, a + w + 1], G(.01, .99, 3), at=1e-10 * max(1., w, w * w))
        # exponential and gamma(1, 1/lambda)
        lam = r.choice([1., 2., .5, .25, 8., 3., r.uniform(.1, 5)])
        same("Exponential", (lam,), "Gamma", (1., 1 / lam), ["density", "distribution", "mean", "variance", "deviation", "skewness", "kurtosis", "entropy", "modes"], G(0, 5 / lam, 5) + [-1., 0.], rt=1e-9)
        # Bernoulli, one-trial binomial, two-outcome categorical
        p = r.choice([.5, .25, .75, .125, .875, r.random() * .98 + .01])
        ks = [0, 1]
        xs = [-1., -.5, 0., .5, 1., 1.5, 2.]
        for (fa, A), (fb, B) in [(("Bernoulli", (p,)), ("Binomial", (1, p))), (("Bernoulli", (p,)), ("Categorical", (1 - p, p))), (("Binomial", (1, p)), ("Categorical", (1 - p, p))),
                                 (("Bernoulli.with_failure", (p,)), ("Binomial.with_failure", (1, p)))]:
            L = ["mass", "distribution", "mean", "variance", "deviation", "skewness", "kurtosis", "entropy", "inverse", "modes", "median"]
            if p == .5 and "Categorical" in (fa, fb) or p == .5:
                L.remove("median")      # any number in [0, 1] is a median
            same(fa, A, fb, B, L, xs, [v for v in G(0, 1, 6) if min(abs(v - p), abs(v - 1 + p)) > 1e-6] + [.0, 1.], ks, rt=1e-9)
        # complementary constructors (dyadic probabilities make the complement exact)
        p = r.choice([.5, .25, .75, .125, .875, .0625, r.randint(1, 1023) / 1024])
        n = r.choice([1, 2, 7, 20, 100, 999, 1000, 3000])
        same("Bernoulli", (p,), "Bernoulli.with_failure", (1 - p,), ["mass", "distribution", "inverse", "mean", "variance", "deviation", "skewness", "kurtosis", "entropy", "modes", "median"], xs, G(0, 1, 4) + [1 - p], [0, 1, 2], rt=1e-14, at=1e-14)
        same("Binomial", (n, p), "Binomial.with_failure", (n, 1 - p), ["mass", "distribution", "inverse", "mean", "variance", "deviation", "skewness", "kurtosis", "entropy", "modes", "median"],
             [float(r.randint(0, n)) for _ in range(4)], G(0, 1, 4), [r.randint(0, n) for _ in range(4)], rt=1e-13, at=1e-14)
        # successes and failures mirrored
        same("Binomial", (n, p), "Binomial", (n, 1 - p), ["mass", "variance", "deviation", "kurtosis", "entropy"], ks=[r.randint(0, n) for _ in range(5)], km=lambda k: n - k, rt=1e-10)
        # lognormal and gaussian
        mu, s = r.choice([0., 1., -2., r.uniform(-2, 2)]), r.choice([1., .5, 2., r.uniform(.2, 2)])
        zs = G(mu - 3 * s, mu + 3 * s, 5)
        same("Gaussian", (mu, s), "Lognormal", (mu, s), ["distribution"], zs, xm=lambda z: math.exp(z), rt=1e-9, at=1e-13)
        for z in zs:
            if ctx.only(["Gaussian", "Lognormal"]):
                pair(ctx, ("Gaussian", "density", (mu, s), z), ("Lognormal", "density", (mu, s), math.exp(z)), lambda v: v / math.exp(z), 1e-9, 1e-300, "lognormal density is not that of the exponential")
        same("Gaussian", (mu, s), "Lognormal", (mu, s), ["inverse", "median"], ps=G(.001, .999, 5), cv=lambda m, v: math.exp(v), rt=1e-11)
        for w in (word(r.random()), zig_word(77, 1, 12345), zig_word(50, 0, 99999)):
            s3 = [w] + [word(r.random()) for _ in range(20)]
            if ctx.only(["Gaussian", "Lognormal"]):
                oa, ob = ctx.real([("Gaussian", "sample", (mu, s), None, s3), ("Lognormal", "sample", (mu, s), None, s3)])
                if oa[0] == "ok" and ob[0] == "ok" and oa[1][1] == ob[1][1] and not near(math.exp(oa[1][0]), ob[1][0], 1e-12):
                    ctx.notes["lognormal sample"] = "not the exponential of the gaussian one"
        # mirrored
        for fam in ("Gaussian", "Laplace", "Logistic", "Cauchy"):
            for z in G(-5, 5, 3):
                l, c = float(r.randint(-5, 5)), r.choice([1., 2., .5])
                L = ["density"] if fam != "x" else []
                if ctx.only([fam]):
                    pair(ctx, (fam, "density", (l, c), l + z * c), (fam, "density", (-l, c), -(l + z * c)), lambda v: v, 1e-12, 1e-300, "mirrored density")
                    pair(ctx, (fam, "distribution", (l, c), l + z * c), (fam, "distribution", (-l, c), -(l + z * c)), lambda v: 1 - v, 1e-11, 1e-14, "mirrored CDF")
                    p = r.randint(1, 255) / 256
                    pair(ctx, (fam, "inverse", (l, c), p), (fam, "inverse", (-l, c), 1 - p), lambda v: -v, 1e-11, 1e-12, "mirrored quantile")
        al, be = lu(r, .4, 9), lu(r, .4, 9)
        for x in G(.05, .95, 3):
            if ctx.only(["Beta"]):
                pair(ctx, ("Beta", "density", (al, be, 0., 1.), x), ("Beta", "density", (be, al, 0., 1.), 1 - x), lambda v: v, 1e-9, 1e-12, "mirrored density")
                pair(ctx, ("Beta", "distribution", (al, be, 0., 1.), x), ("Beta", "distribution", (be, al, 0., 1.), 1 - x), lambda v: 1 - v, 1e-9, 1e-11, "mirrored CDF")
        if ctx.only(["Beta"]):
            for m, cv in (("mean", lambda v: 1 - v), ("variance", lambda v: v), ("skewness", lambda v: -v), ("kurtosis", lambda v: v), ("entropy", lambda v: v), ("modes", lambda v: 1 - v)):
                pair(ctx, ("Beta", m, (al, be, 0., 1.), None), ("Beta", m, (be, al, 0., 1.), None), cv, 1e-9, 1e-10, "mirrored " + m)
        k = r.randint(0, 16) / 16
        for m, cv in (("mean", lambda v: -v), ("variance", lambda v: v), ("skewness", lambda v: -v), ("kurtosis", lambda v: v), ("entropy", lambda v: v), ("modes", lambda v: -v), ("median", lambda v: -v)):
            if ctx.only(["Triangular"]):
                pair(ctx, ("Triangular", m, (-2., 6., -2 + 8 * k), None), ("Triangular", m, (-6., 2., 2 - 8 * k), None), cv, 1e-11, 1e-12, "mirrored " + m)
        for x in G(-2.5, 6.5, 3):
            if ctx.only(["Triangular"]) and abs(x - (-2 + 8 * k)) > 1e-6:
                pair(ctx, ("Triangular", "density", (-2., 6., -2 + 8 * k), x), ("Triangular", "density", (-6., 2., 2 - 8 * k), -x), lambda v: v, 1e-9, 1e-14, "mirrored density")
                pair(ctx, ("Triangular", "distribution", (-2., 6., -2 + 8 * k), x), ("Triangular", "distribution", (-6., 2., 2 - 8 * k), -x), lambda v: 1 - v, 1e-11, 1e-13, "mirrored CDF")
    # defaults
    for fam in ("Gaussian", "Logistic", "Lognormal", "Uniform"):
        same(fam, (0., 1.), fam + ".default", (), [m for m in ALL if m in FAM[fam].m] + (["modes"] if FAM[fam].modes else []), G(-3, 3, 8) + [0., 1.], G(0, 1, 6) + [0., 1.], rt=0, at=0, why="default object")
        for _ in range(4):
            s3 = [word(r.random()) for _ in range(40)]
            if ctx.only([fam, fam + ".default"]):
                pair(ctx, (fam, "sample", (0., 1.), None, s3), (fam + ".default", "sample", (), None, s3), lambda v: v, 0, 0, "default object")


def near_kink(fam, t, x):
    if fam == "Triangular":
        return min(abs(x - t), abs(x), abs(x - 1))
    if fam in ("Beta", "Pert", "Uniform"):
        return min(abs(x), abs(x - 1)) or 1
    if fam in ("Exponential", "Gamma"):
        return abs(x)
    if fam == "Laplace":
        return 1
    return 1


# ------------------------------------------------------------------ C17
def C17(ctx):
    r = ctx.r
    for fam in ctx.only(FAM):
        for ps in gen.params(fam, r, 5 * ctx.scale, 5 * ctx.scale, ctx.lits):
            if slow_beta(fam, ps):
                continue
            for n in (1, 2, 7, 40):
                s = [word(r.random()) for _ in range(16 * n + 60)] if r.random() < .6 else streams(fam, r, 1)[-1] + [word(r.random()) for _ in range(16 * n)]
                qa, qb = (fam, "repeated", ps, n, s), (fam, "independent", ps, n, s)
                a, b = ctx.real([qa, qb])
                if a[0] == "dry" and b[0] == "dry":
                    continue
                if a != b and not (a[0] == b[0] == "ok" and repr(a) == repr(b)):
                    ctx.bad(qb, b[1] if b[0] == "ok" else b, str(a[1] if a[0] == "ok" else a), "the sampler's items differ from repeated sampling, or the source ends elsewhere")
                elif a[0] == "ok":
                    ctx.sample(fam, tuple(ps)[:4], str(n), "items equal", str(n), "draws,", str(a[1][-1]), "words")
            # the other methods of the iterator behave as the default ones on repeated sampling do
            for k in (0, 1, 4):
                s = [word(r.random()) for _ in range(1200)]
                q = (fam, "iterator", ps, k, s)
                (o,) = ctx.real([q])
                if o[0] == "ok" and (o[1][0] != 0 or o[1][1] != o[1][2]):
                    ctx.bad(q, "difference in use %d, word %d" % (o[1][0], o[1][2]), "no difference, word %d" % o[1][1],
                            "a method of the sampler other than next differs from repeated sampling")
                elif o[0] not in ("ok", "dry"):
                    ctx.bad(q, o, "the items", "a method of the sampler does not return")
