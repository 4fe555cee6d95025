"""Run-time evaluation of the contracts on the real, compiled crate: every violation
found here is a concrete failing input.  Used (a) to look for a failing input when an
obligation fails, (b) as the labelled bounded stand-in for what the deductive engine
does not cover (floating-point residue, undischarged obligations)."""
import math, random, zlib
import mpmath as mp
import gen, oracle, specs
from oracle import mpf, agree, expected, ANY
from specs import FAM
from gen import up, dn, lu

CONT = [n for n, f in FAM.items() if not f.discrete]
DISC = [n for n, f in FAM.items() if f.discrete]
BASE = [n for n in FAM if "." not in n]
MLBL = {"mass": lambda f: "massb" if f.startswith("Bernoulli") else "mass"}


def fmt(v):
    if isinstance(v, (tuple, list)):
        return "[" + ", ".join(fmt(x) for x in v) + "]"
    if isinstance(v, mp.mpf):
        return mp.nstr(v, 17)
    return repr(v)


class Ctx:
    def __init__(self, srv, seed, tier, lits, pid, budget=60):
        self.srv, self.tier, self.lits, self.pid = srv, tier, lits, pid
        self.r = random.Random((seed << 32) ^ zlib.crc32(pid.encode()))
        self.n = 0
        self.seen = set()
        self.samples = []
        self.viol = []
        self.known = {}
        self.scale = 1 if tier == "quick" else 6
        self.fams = None
        self.notes = {}
        self.soft = 0

    def only(self, fams):
        return [f for f in fams if self.fams is None or f in self.fams]

    def real(self, reqs):
        """reqs: (fam, method, params, arg[, stream]) with logical method names"""
        rs = []
        for q in reqs:
            fam, m = q[0], q[1]
            m = MLBL[m](fam) if m in MLBL else m
            rs.append((fam, m) + tuple(q[2:]))
        out = self.srv.many(rs)
        self.n += len(rs)
        for q in reqs:
            self.seen.add(hash((q[0], q[1], tuple(q[2]), q[3] if len(q) > 3 else None, tuple(q[4]) if len(q) > 4 and q[4] else None)))
        return out

    def bad(self, req, got, want, why):
        v = dict(request=dict(family=req[0], method=req[1], params=[float(x) if not isinstance(x, int) else x for x in req[2]],
                              arg=req[3] if len(req) > 3 else None, stream=list(req[4]) if len(req) > 4 and req[4] else None),
                 got=fmt(got), want=fmt(want) if not isinstance(want, str) else want, why=why)
        self.viol.append(v)

    def sample(self, *a):
        if len(self.samples) < 12:
            self.samples.append(" ".join(fmt(x) if not isinstance(x, str) else x for x in a))


def check_values(ctx, reqs, rtol, atol, why, delta=None, skip=None):
    out = ctx.real(reqs)
    for q, o in zip(reqs, out):
        fam, m, ps, arg = q[:4]
        if o[0] != "ok":
            ctx.bad(q, o, "a number", why + ": the operation does not return (%s)" % o[0])
            continue
        got = o[1][0]
        if skip and skip(q, got):
            continue
        try:
            e = agree(fam, m, ps, arg, got, rtol(q) if callable(rtol) else rtol, atol(q) if callable(atol) else atol, mpf(0) if delta and m == "density" and at_end(fam, ps, arg) else delta)
        except Exception as ex:   # noqa  oracle limits never raise an alarm
            ctx.notes["oracle:" + type(ex).__name__] = ctx.notes.get("oracle:" + type(ex).__name__, 0) + 1
            continue
        if e is not None:
            ctx.bad(q, got, e, why)
        else:
            ctx.sample(fam, m, tuple(ps)[:4], "" if arg is None else arg, "=", got)


BETALIKE = ("Beta", "Pert")


def at_end(fam, ps, x):
    """an end of the support, which the comparisons decide without rounding"""
    f = fam.split(".")[0]
    i = {"Uniform": (0, 1), "Triangular": (0, 1), "Beta": (2, 3), "Pert": (0, 2)}.get(f)
    if fam.endswith(".default"):
        return f == "Uniform" and x in (0, 1)
    if i:
        return x in [ps[j] for j in i]
    return x == 0 and f in ("Exponential", "Gamma", "Lognormal")


def dyadic(*v):
    return all(float(x) * 2 ** 20 == int(float(x) * 2 ** 20) for x in v)


def tol_delta(q):
    return None


# ------------------------------------------------------------------ C01
def C01(ctx):
    k = ctx.scale
    reqs = []
    for fam in ctx.only(CONT):
        for ps in gen.params(fam, ctx.r, 20 * k, 14 * k, ctx.lits):
            for x in gen.xs(fam, ps, ctx.r, 8, ctx.lits):
                reqs.append((fam, "density", ps, x))
        for ps in gen.params(fam, ctx.r, 2, 1):
            reqs += [(fam, "density", ps, s * v) for s in (1, -1) for v in (math.inf, 1e300, 1e18)]
    for fam in ctx.only(DISC):
        for ps in gen.params(fam, ctx.r, 60 * k, 30 * k, ctx.lits):
            for x in gen.ks(fam, ps, ctx.r, 6):
                reqs.append((fam, "mass", ps, x))
    shape(ctx, reqs, "density/mass differs from the textbook value")


def rt_density(q):
    fam, m, ps, arg = q[:4]
    if fam in BETALIKE or fam == "Gamma":
        return 3e-11 + 1e-14 * sum(abs(p) for p in ps)
    if fam.startswith("Binomial"):
        return 1e-11 + 1e-15 * ps[0]
    return 1e-11


def shape(ctx, reqs, why):
    check_values(ctx, reqs, rt_density, 1e-290, why, delta=mpf("2e-15"))


# ------------------------------------------------------------------ C02
def C02(ctx):
    k = ctx.scale
    reqs = []
    for fam in ctx.only(CONT):
        for ps in gen.params(fam, ctx.r, 20 * k, 10 * k, ctx.lits):
            for x in gen.xs(fam, ps, ctx.r, 6, ctx.lits):
                reqs.append((fam, "distribution", ps, x))
            reqs += [(fam, "distribution", ps, v) for v in (math.inf, -math.inf, 1e300, -1e300)]
    for fam in ctx.only(DISC):
        for ps in gen.params(fam, ctx.r, 40 * k, 20 * k, ctx.lits):
            for x in gen.dxs(fam, ps, ctx.r, 5):
                reqs.append((fam, "distribution", ps, x))
            reqs += [(fam, "distribution", ps, v) for v in (math.inf, -math.inf)]
    check_values(ctx, reqs, 1e-10, cdf_atol, "CDF differs from P(X <= x)")


def cdf_atol(q):
    fam, m, ps, arg = q[:4]
    if fam in BETALIKE or fam.startswith("Binomial"):
        return 2e-12 + 1e-14 * sum(abs(p) for p in ps)
    if fam == "Gamma":
        return 2e-11 + 1e-13 * ps[0]
    return 1e-12


# ------------------------------------------------------------------ C03
def C03(ctx):
    k = ctx.scale
    for fam in ctx.only(FAM):
        f = FAM[fam]
        for ps in gen.params(fam, ctx.r, 14 * k, 10 * k, ctx.lits):
            X = sorted(set(gen.dxs(fam, ps, ctx.r, 12) if f.discrete else gen.xs(fam, ps, ctx.r, 30, ctx.lits)))
            X = [-math.inf, -1e300] + X + [1e300, math.inf]
            reqs = [(fam, "distribution", ps, x) for x in X]
            out = ctx.real(reqs)
            prev = None
            tol = max(cdf_atol(reqs[0]), 1e-12) if fam in BETALIKE or fam == "Gamma" or fam.startswith("Binomial") else 1e-14
            for q, o in zip(reqs, out):
                if o[0] != "ok" or not (o[1][0] == o[1][0]):
                    ctx.bad(q, o, "a number in [0, 1]", "CDF does not return a number")
                    continue
                v = o[1][0]
                if not -tol <= v <= 1 + tol:
                    ctx.bad(q, v, "a value in [0, 1]", "CDF leaves [0, 1]")
                if prev is not None and v < prev[1] - tol:
                    ctx.bad(q, v, ">= %r = CDF(%r)" % (prev[1], prev[0]), "CDF decreases")
                if prev is None or v > prev[1]:
                    prev = (q[3], v)
            if out[0] != ("ok", [0.0]) or out[-1] != ("ok", [1.0]):
                ctx.bad(reqs[0] if out[0] != ("ok", [0.0]) else reqs[-1], (out[0], out[-1]), "0 at -inf and 1 at +inf", "CDF limits")
            # outside the support
            if f.discrete:
                hi = {"Bernoulli": 1.0, "Categorical": len(ps) - 1.0}.get(f.fam) if f.fam != "Binomial" else float(ps[0])
                lo = 0.0
            else:
                if f.support[0] in specs.INF_TAGS:
                    continue
                e = oracle.env_of(f, ps)
                lo = float(specs.evalmp(f.support[0], e))
                hi = math.inf if f.support[1] == specs.PINF else float(specs.evalmp(f.support[1], e))
            for x, want in [(dn(lo), 0.0), (lo - 1, 0.0), (hi, 1.0), (up(hi), 1.0), (hi + 1, 1.0)]:
                o = ctx.real([(fam, "distribution", ps, x)])[0]
                if o != ("ok", [want]):
                    ctx.bad((fam, "distribution", ps, x), o, want, "CDF outside the support")
            ctx.sample(fam, "cdf monotone over", str(len(X)), "points, params", tuple(ps)[:4])


# ------------------------------------------------------------------ C04
GL = None


def gauss_legendre(n=10):
    import numpy as np
    global GL
    if GL is None:
        GL = np.polynomial.legendre.leggauss(n)
    return GL


def C04(ctx):
    k = ctx.scale
    X, W = gauss_legendre()
    for fam in ctx.only(CONT):
        f = FAM[fam]
        for ps in gen.params(fam, ctx.r, 12 * k, 8 * k, ctx.lits):
            an, sc = gen.anchors(fam, ps)
            cuts = sorted(set(an))
            iv = []
            lo = -math.inf if f.support[0] in specs.INF_TAGS else an[0]
            bounded = fam in BETALIKE or fam == "Triangular" or fam.startswith("Uniform")
            for _ in range(10):
                if bounded:
                    c = cuts[0] + (cuts[-1] - cuts[0]) * ctx.r.random()
                    h = .01 * sc
                elif fam.startswith("Lognormal"):
                    c = math.exp(math.log(an[1]) + (ps[1] if ps else 1.) * ctx.r.gauss(0, 1.5))
                    h = .01 * c * min(1, ps[1] if ps else 1.)
                elif fam in ("Gamma", "Exponential"):
                    c = abs(ctx.r.choice(an[1:]) + sc * ctx.r.gauss(0, 1.2))
                    h = min(.02 * sc, .02 * c)
                else:
                    c = an[0] + sc * ctx.r.gauss(0, 2)
                    h = .02 * sc
                x1, x2 = c - h, c + h
                # stay off kinks and singular ends
                d = min(abs(c - t) for t in cuts)
                if d < 1.5 * h:
                    if d < 1e-6 * sc:
                        continue
                    h = d / 3
                    x1, x2 = c - h, c + h
                iv.append((x1, x2))
            iv += [(an[0] - 2 * sc, an[0] - 1.9 * sc), (an[-1] + 2 * sc, an[-1] + 2.02 * sc)]
            for x1, x2 in iv:
                m, h = (x1 + x2) / 2, (x2 - x1) / 2
                nodes = [m + h * t for t in X]
                reqs = [(fam, "density", ps, t) for t in nodes] + [(fam, "distribution", ps, x1), (fam, "distribution", ps, x2)]
                out = ctx.real(reqs)
                if any(o[0] != "ok" for o in out):
                    q = [q for q, o in zip(reqs, out) if o[0] != "ok"][0]
                    ctx.bad(q, "no value", "a number", "density or CDF does not return")
                    continue
                v = [o[1][0] for o in out]
                integ = h * sum(w * y for w, y in zip(W, v[:-2]))
                inc = v[-1] - v[-2]
                cond = max(v[:-2]) * (abs(x1) + abs(x2)) * 2e-15
                if not abs(integ - inc) <= 2e-7 * max(abs(integ), abs(inc)) + 5e-11 + cond + (1e-13 * ps[0] if fam in ("Gamma",) + BETALIKE else 0):
                    ctx.bad((fam, "distribution", ps, x2), inc, mpf(integ), "CDF increase over [%r, %r] differs from the integral of the density" % (x1, x2))
                else:
                    ctx.sample(fam, tuple(ps), "∫density over", (x1, x2), "=", integ, "CDF increase", inc)
    for fam in ctx.only(DISC):
        for ps in gen.params(fam, ctx.r, 50 * k, 24 * k, ctx.lits):
            K = gen.ks(fam, ps, ctx.r, 8)
            top = 1 if fam.startswith("Bern") else len(ps) - 1 if fam == "Categorical" else int(ps[0])
            K = [x for x in K if x <= top + 5] if fam != "Categorical" else K
            full = top <= 60
            if full:
                K = sorted(set(K) | set(range(top + 1)))
            reqs = []
            for x in K:
                reqs += [(fam, "mass", ps, x), (fam, "distribution", ps, float(x)), (fam, "distribution", ps, x - 1.0), (fam, "distribution", ps, x + .5)]
            out = ctx.real(reqs)
            if any(o[0] != "ok" for o in out):
                q = [q for q, o in zip(reqs, out) if o[0] != "ok"][0]
                ctx.bad(q, "no value", "a number", "mass or CDF does not return")
                continue
            tot = 0.
            for i, x in enumerate(K):
                m, F, G, H = (out[4 * i + j][1][0] for j in range(4))
                if x <= top:
                    tot += m
                c = oracle.f2_factor(top, x) if fam.startswith("Bino") else 1
                if c != 1 and abs((F - G) * float(c) - m) <= 1e-10 * max(m, 0) + 3e-11 + 1e-13 * ps[0]:
                    oracle.KNOWN["F2"] = (fam, "mass", ps, x, m, mpf(F) - mpf(G))
                    tot += F - G - m
                    continue
                if not abs(F - G - m) <= 1e-10 * max(m, 0) + 3e-11 + (1e-13 * ps[0] if fam.startswith("Bino") else 0):
                    ctx.bad((fam, "mass", ps, x), m, mpf(F) - mpf(G), "mass differs from the jump of the CDF")
                if H != F:
                    ctx.bad((fam, "distribution", ps, x + .5), H, F, "CDF changes between outcomes")
            if full and not abs(tot - 1) < 1e-9:
                ctx.bad((fam, "mass", ps, 0), tot, 1.0, "masses do not add up to one (total shown)")
            ctx.sample(fam, tuple(ps)[:4], "masses = CDF jumps at", str(len(K)), "outcomes")


# ------------------------------------------------------------------ C05
def inv_fams():
    return [n for n, f in FAM.items() if f.fam != "Gamma"]


def ulp(x):
    return max(math.ulp(x), 5e-324)


def rng_mags(fam, ps):
    if fam.endswith(".default") or fam == "Exponential":
        return 0.
    if fam in ("Pert", "Triangular", "Uniform"):
        return max(abs(v) for v in ps)
    if fam == "Beta":
        return max(abs(ps[2]), abs(ps[3]))
    if fam.startswith("Lognormal"):
        return 0.
    return abs(ps[0])


def quantile_ok(fam, ps, p, x, slack=None):
    """does x satisfy the contract of the continuous quantile at p (up to rounding)?"""
    if x != x:
        return False
    if math.isinf(x):
        return False
    mag = max(ulp(x), ulp(rng_mags(fam, ps)) if rng_mags(fam, ps) else 0)
    if fam.startswith("Lognormal"):
        mag = max(mag, abs(x) * 1e-15 * (4 + abs(math.log(abs(x) + 1e-300))))
    if fam in BETALIKE:     # accuracy of the dependency's inverse
        mag = max(mag, 1e-10 * (supp(fam, ps)[1] - supp(fam, ps)[0]))
    w = 16 * mag
    tol = slack if slack is not None else 1e-10 * min(p, 1 - p) + (2e-15 if p > .1 or fam == "Cauchy" else 0)
    lo = oracle.cdf(fam, ps, mpf(x) - w)
    if lo > mpf(p) + tol:
        return False
    return oracle.cdf(fam, ps, mpf(x) + w) >= mpf(p) - tol


def q_slack(fam, ps, p):
    if fam in BETALIKE:
        return 3e-9 * min(p, 1 - p) + 1e-13 + 1e-13 * sum(abs(v) for v in ps[:2])
    return None


def disc_cdf_pair(fam, ps, r):
    return oracle.cdf_left(fam, ps, r), oracle.cdf(fam, ps, r)


def dq_ok(fam, ps, p, r):
    """generalised inverse for discrete families"""
    top = 1 if fam.startswith("Bern") else len(ps) - 1 if fam == "Categorical" else int(ps[0])
    if not 0 <= r <= top:
        return "outside the support"
    tol = 2e-11 * min(p, 1 - p) + 4e-16 * (1 + (8 * len(ps) if fam == "Categorical" else 4))
    if (fam.startswith("Bern") or fam == "Categorical") and dyadic(p, *ps):
        tol = 0         # no operation rounds
    step = 0
    if fam.startswith("Bino"):
        n, s = ps[0], ps[1] if fam == "Binomial" else 1 - ps[1]
        if n < 1000:
            tol = 2e-11 * min(p, 1 - p) + ((4 + 2 * n) * 1e-16 if p > .1 else 1e-310)
        else:
            tol = min(p, 1 - p) * (2e-11 + 1e-14 * n) + (4e-16 if p > .1 else 1e-310)
            # many trials, small variance: the search may stop one outcome early
            step = 1 if n * s * (1 - s) < 80.001 else 0
    L, F = disc_cdf_pair(fam, ps, r)
    if F < mpf(p) - tol and not (step and r < top and oracle.cdf(fam, ps, r + 1) >= mpf(p) - tol):
        return "CDF(r) = %s < p" % mp.nstr(F, 17)
    if r > 0 and L >= mpf(p) + tol and L > 0:
        return "CDF(r - 1) = %s >= p" % mp.nstr(L, 17)
    if expected(fam, "mass", ps, r) == 0:
        return "impossible outcome"
    return None


def slow_beta(fam, ps):
    """precondition: the dependency's inverse may not terminate for extreme shapes"""
    return fam == "Beta" and (min(ps[:2]) < .04 or max(ps[:2]) > 2000)


def C05(ctx):
    k = ctx.scale
    for fam in ctx.only(inv_fams()):
        f = FAM[fam]
        for ps in gen.params(fam, ctx.r, (46 if fam.startswith("Bino") else 16) * k, (20 if fam.startswith("Bino") else 8) * k, ctx.lits):
            if slow_beta(fam, ps):
                continue
            P = gen.probs(ctx.r, 10 if not f.discrete else 6, ctx.lits) + [v for v in gen.targets(fam, ps, "p") if 0 < v < 1]
            if f.discrete:
                top = 1 if fam.startswith("Bern") else len(ps) - 1 if fam == "Categorical" else int(ps[0])
                K = sorted({0, 1, top // 2, max(top - 1, 0), top} | {x for x in gen.ks(fam, ps, ctx.r, 3) if x <= top})
                K = ctx.r.sample(K, min(len(K), 8))
                cs = [o[1][0] for o in ctx.real([(fam, "distribution", ps, float(x)) for x in K]) if o[0] == "ok"]
                P += ctx.r.sample(gen.pdisc(fam, ps, ctx.r, 0, cs) or [.5], min(14, max(1, len(gen.pdisc(fam, ps, ctx.r, 0, cs)))))
            if fam in BETALIKE:
                P = [p for p in P if p > 1e-13]
            P = [p for p in P if 0 < p < 1]
            reqs = [(fam, "inverse", ps, p) for p in P]
            for q, o in zip(reqs, ctx.real(reqs)):
                p = q[3]
                if o[0] != "ok":
                    ctx.bad(q, o, "a quantile", "quantile does not return")
                    continue
                r = o[1][0]
                try:
                    if f.discrete:
                        why = dq_ok(fam, ps, p, r)
                        if why:
                            ctx.bad(q, r, "smallest outcome with CDF >= p", why)
                    elif not quantile_ok(fam, ps, p, r, q_slack(fam, ps, p)):
                        ctx.bad(q, r, "CDF(result) = p; CDF there is " + (mp.nstr(oracle.cdf(fam, ps, r), 17) if math.isfinite(r) else "?"), "quantile does not invert the CDF")
                    else:
                        ctx.sample(fam, "inverse", tuple(ps)[:4], p, "=", r)
                except Exception as ex:   # noqa
                    ctx.notes["oracle:" + type(ex).__name__] = ctx.notes.get("oracle:" + type(ex).__name__, 0) + 1


# ------------------------------------------------------------------ C06
def supp(fam, ps):
    f = FAM[fam]
    if f.fam == "Categorical":
        pos = [i for i, v in enumerate(ps) if v > 0]
        return float(pos[0]), float(pos[-1])
    e = oracle.env_of(f, ps)
    g = lambda t: -math.inf if t == specs.NINF else math.inf if t == specs.PINF else float(specs.evalmp(t, e))
    return g(f.support[0]), g(f.support[1])


def C06(ctx):
    k = ctx.scale
    for fam in ctx.only(inv_fams()):
        f = FAM[fam]
        for ps in gen.params(fam, ctx.r, (40 if f.discrete else 14) * k, 10 * k, ctx.lits):
            if slow_beta(fam, ps):
                continue
            P = sorted(set(gen.probs(ctx.r, 16, ctx.lits)) | {0.0, 1.0} | set(gen.targets(fam, ps, "p")))
            for c in (.075, .925, .5):
                P += [c + d for d in (-1e-9, 0, 1e-9)]
            if f.discrete:
                top = 1 if fam.startswith("Bern") else len(ps) - 1 if fam == "Categorical" else int(ps[0])
                cs = [o[1][0] for o in ctx.real([(fam, "distribution", ps, float(x)) for x in sorted({0, 1, top // 2, top // 2 + 1, int(top / 3)}) if x <= top]) if o[0] == "ok"]
                P += gen.pdisc(fam, ps, ctx.r, 0, cs)
                if fam.startswith("Bino"):
                    P += [10. ** -k for k in ctx.r.sample(range(10, 324), 12)] + inside_atoms(ctx, fam, ps)
            if fam in BETALIKE:
                P = [p for p in P if p > 1e-13 or p == 0]
            P = sorted(set(P))
            reqs = [(fam, "inverse", ps, p) for p in P]
            lo, hi = supp(fam, ps)
            prev = None
            for q, o in zip(reqs, ctx.real(reqs)):
                p = q[3]
                if o[0] != "ok" or o[1][0] != o[1][0]:
                    ctx.bad(q, o, "a quantile", "quantile does not return a number")
                    continue
                x = float(o[1][0])
                sl = 0 if f.discrete else 8 * max(ulp(lo) if math.isfinite(lo) else 0, ulp(hi) if math.isfinite(hi) else 0, ulp(x) if math.isfinite(x) else 0)
                if fam in BETALIKE:
                    sl = max(sl, 1e-9 * (hi - lo))
                if not lo - sl <= x <= hi + sl:
                    ctx.bad(q, x, "a value in [%r, %r]" % (lo, hi), "quantile outside the support")
                if p in (0.0, 1.0):
                    want = lo if p == 0 else hi
                    if not (x == want or abs(x - want) <= sl):
                        ctx.bad(q, x, want, "quantile at the end point")
                if prev is not None and x < prev[1] - (0 if f.discrete else mono_slack(fam, ps, p, x)):
                    if not close_atom(fam, ps, prev[0], p):
                        ctx.bad(q, x, ">= %r (quantile at %r)" % (prev[1], prev[0]), "quantile decreases")
                if prev is None or x > prev[1]:
                    prev = (p, x)
            ctx.sample(fam, "quantile monotone over", str(len(P)), "probabilities, params", tuple(ps)[:4])


def inside_atoms(ctx, fam, ps):
    """probabilities at fractions of the jump of a binomial CDF, where a search may stop early or late"""
    n, s = ps[0], ps[1] if fam == "Binomial" else 1 - ps[1]
    K = sorted({min(max(int(n * s + z * math.sqrt(n * s * (1 - s)) + ctx.r.choice((0, 1))), 1), n - 1) for z in [ctx.r.uniform(-6, 8) for _ in range(3)]}) if n > 1 else []
    out = []
    for k in K:
        o = ctx.real([(fam, "distribution", ps, float(k - 1)), (fam, "distribution", ps, float(k))])
        if all(v[0] == "ok" for v in o):
            a, b = (v[1][0] for v in o)
            out += [a + f * (b - a) for f in (1e-6, .25, .45, .49, .499, .501, .51, .55, .75, 1 - 1e-6)]
    return [p for p in out if 0 < p < 1]


def close_atom(fam, ps, p1, p2):
    if not fam.startswith("Bino"):
        return False
    return p2 - p1 < min(p2, 1 - p1) * (2e-11 + (1e-14 * ps[0] if ps[0] >= 1000 else 0)) + (4e-16 if p2 > .1 else 0)


def mono_slack(fam, ps, p, x):
    """rounding: x may move back by what a relative change of 1e-12 of p is worth"""
    if not math.isfinite(x):
        return 0
    base = 32 * max(ulp(x), ulp(rng_mags(fam, ps)))
    if fam in BETALIKE:     # accuracy of the dependency's inverse
        base += 1e-10 * (supp(fam, ps)[1] - supp(fam, ps)[0])
    try:
        d = float(expected(fam, "density", ps, x))
        if fam == "Cauchy":
            return base + 2e-15 / d
        if d > 0 and math.isfinite(d):
            e = 1e-8 if fam in BETALIKE else 4e-15
            base += e * min(p, 1 - p) / d + (2.3e-16 * 4) / d
    except Exception:   # noqa
        base += 1e-9 * abs(x)
    return base


# ------------------------------------------------------------------ C07
def C07(ctx):
    k = ctx.scale
    for fam in ctx.only(inv_fams()):
        f = FAM[fam]
        for ps in gen.params(fam, ctx.r, 220, (60 if fam.startswith("Bino") or fam == "Categorical" else 40) * k, ctx.lits):
            if fam.startswith("Bino") and ps[0] > 30000:
                continue
            if slow_beta(fam, ps):
                continue
            q = (fam, "median", ps, None)
            o = ctx.real([q])[0]
            if o[0] != "ok" or not math.isfinite(o[1][0]):
                ctx.bad(q, o, "a number", "median does not return a number")
                continue
            m = o[1][0]
            why = median_bad(ctx, fam, ps, m)
            if why:
                ctx.bad(q, m, "P(X <= m) >= 1/2 and P(X >= m) >= 1/2", why)
            else:
                ctx.sample(fam, "median", tuple(ps)[:4], "=", m)


def median_bad(ctx, fam, ps, m):
    f = FAM[fam]
    if f.discrete:
        tol = 1e-12
        if fam == "Categorical":
            tol = 4e-16 * (len(ps) + 2)
            # sums of the code's own floats may tie exactly
        L, F = oracle.cdf_left(fam, ps, m), oracle.cdf(fam, ps, m)
        if F < mpf("0.5") - tol or L > mpf("0.5") + tol:
            # ---- known finding: categorical median at an exact tie
            if fam == "Categorical":
                acc = 0.0
                for i, v in enumerate(ps):
                    acc = acc + v
                    if i >= 1 and acc == 0.5:
                        if m == i - 0.5:
                            ctx.known["F1"] = (fam, ps, m)
                            return None
                        break
                    if acc >= .5:
                        break
            return "P(X <= m) = %s, P(X < m) = %s" % (mp.nstr(F, 15), mp.nstr(L, 15))
        return None
    if f.median_tol:
        env = oracle.env_of(f, ps)
        if specs.evalmp(f.median_tol[0], env):
            F = oracle.cdf(fam, ps, m)
            t = mpf(f.median_tol[1].numerator) / f.median_tol[1].denominator
            if abs(F - mpf("0.5")) <= t:
                # a wrong constant inside the tolerance is still a different approximation
                return None
            return "CDF(median) = %s" % mp.nstr(F, 15)
    if quantile_ok(fam, ps, 0.5, m, q_slack(fam, ps, .5) or 1e-13):
        return None
    return "CDF(median) = %s" % mp.nstr(oracle.cdf(fam, ps, m), 15)


# ------------------------------------------------------------------ C08
def C08(ctx):
    from fractions import Fraction as Q
    k = ctx.scale
    for fam in ctx.only([n for n, f in FAM.items() if f.fam != "Uniform"]):
        f = FAM[fam]
        for ps in gen.params(fam, ctx.r, 220, 60 * k, ctx.lits):
            q = (fam, "modes", ps, None)
            o = ctx.real([q])[0]
            if o[0] != "ok":
                ctx.bad(q, o, "a list", "modes do not return")
                continue
            got = o[1]
            if f.fam == "Categorical":
                want = [i for i, v in enumerate(ps) if v == max(ps)]
                if got != want:
                    ctx.bad(q, got, str(want), "modes")
                continue
            if f.fam == "Binomial":
                n = int(ps[0])
                p = Q(ps[1]) if fam == "Binomial" else 1 - Q(ps[1])
                r = (n + 1) * p
                fl = r.__floor__()
                near = abs(r - round(r)) <= Q(1, 10 ** 12) * max(r, 1)
                if r.denominator == 1:
                    want = [[int(r) - 1, int(r)]]
                elif near:
                    z = round(r)
                    want = [[z - 1, z], [z - 1], [z]]
                else:
                    want = [[fl]]
                want = [[v for v in w if 0 <= v <= n] for w in want]
                if got not in want:
                    ctx.bad(q, got, str(want), "modes")
                else:
                    ctx.sample(fam, "modes", ps, "=", str(got))
                continue
            want = oracle.modes(fam, ps)
            env = oracle.env_of(f, ps)
            sc = 1
            if len(want) != len(got):
                ctx.bad(q, got, str([mp.nstr(v, 15) for v in want]), "number of modes")
                continue
            mag = rng_mags(fam, ps)
            for g, e in zip(got, want):
                t = 1e-12 * abs(e) + 1e-14 * mag
                if fam == "Beta" and 0 < len(got) < 2 and e not in (ps[2], ps[3]):
                    t += (ps[3] - ps[2]) * 1e-13 * (1 + 1 / abs(ps[0] + ps[1] - 2))
                if not abs(mpf(g) - e) <= t:
                    ctx.bad(q, got, str([mp.nstr(v, 17) for v in want]), "modes")
                    break
            else:
                ctx.sample(fam, "modes", tuple(ps), "=", str(got))


# ------------------------------------------------------------------ C09 C10 C11
def scalars(ctx, methods, why, rtol):
    k = ctx.scale
    reqs = []
    for fam in ctx.only(FAM):
        f = FAM[fam]
        for ps in gen.params(fam, ctx.r, 220, 60 * k, ctx.lits):
            if f.fam == "Binomial" and ps[0] == 0:
                continue
            for m in methods:
                if m in f.m:
                    reqs.append((fam, m, ps, None))
    check_values(ctx, reqs, rtol, scalar_atol, why, skip=scalar_skip)


def scalar_skip(q, got):
    fam, m, ps = q[0], q[1], q[2]
    if fam == "Categorical" and m in ("skewness", "kurtosis"):
        return sum(1 for v in ps if v > 0) < 2 or oracle.expected(fam, "variance", ps) < 1e-6   # undefined for a constant
    return False


def scalar_atol(q):
    fam, m, ps = q[0], q[1], q[2]
    if m == "entropy":
        n = ps[0] if fam.startswith("Bino") else 1
        if fam.startswith("Bino") and n > 10000:
            v = n * ps[1] * (1 - ps[1])
            if v > 80:
                return 1 / (4 * v)
        return 1e-12 + 1e-13 * n + (1e-12 * sum(abs(p) for p in ps[:2]) * 3 if fam in ("Beta", "Pert", "Gamma") else 0)
    if fam == "Categorical" and m in ("skewness", "kurtosis"):
        return 1e-9
    if m == "skewness":
        return 1e-13
    if m == "kurtosis":
        return 1e-12
    if m == "mean":
        return 1e-14 * rng_mags(fam, ps)
    return 1e-300


def C09(ctx):
    scalars(ctx, ["mean", "variance", "deviation"], "moment differs from the true moment", 1e-11)
    # deviation^2 = variance on the real code
    for fam in ctx.only([n for n, f in FAM.items() if "variance" in f.m]):
        for ps in gen.params(fam, ctx.r, 6, 6):
            o = ctx.real([(fam, "variance", ps, None), (fam, "deviation", ps, None)])
            if o[0][0] == "ok" and o[1][0] == "ok":
                v, d = o[0][1][0], o[1][1][0]
                if math.isfinite(v) and v > 1e-290 and not abs(d * d - v) <= 1e-12 * v:
                    ctx.bad((fam, "deviation", ps, None), d, "square root of the variance %r" % v, "deviation squared differs from the variance")


def C10(ctx):
    scalars(ctx, ["skewness", "kurtosis"], "standardised moment differs from the true one", 1e-10)


def C11(ctx):
    scalars(ctx, ["entropy"], "entropy differs from -E ln f", 1e-10)
    check_values(ctx, [("Lognormal", "entropy", (m, s), None) for m in (-2000., -720., 720., 1000.) for s in (.5, 2.)],
                 1e-10, scalar_atol, "entropy differs from -E ln f")


# ------------------------------------------------------------------ C14
GOODBAD = None
NAN, INF = float("nan"), math.inf


def ctor_cases():
    pos = [(v, True) for v in (1e-300, .5, 1., 7., 1e300, 5e-324)]
    neg = [(v, False) for v in (0.0, -0.0, -1e-300, -1., -7., NAN, -INF)]
    out = []
    for fam in ("Bernoulli", "Bernoulli.with_failure"):
        out += [(fam, (v,), True) for v in (5e-324, 1e-9, .5, dn(1.0), .25)]
        out += [(fam, (v,), False) for v in (0., -0., 1., up(1.0), -.5, 1.5, NAN, INF, -INF, -5e-324)]
    for fam in ("Binomial", "Binomial.with_failure"):
        for n in (0, 1, 7, 1000, 10 ** 6):
            out += [(fam, (n, v), True) for v in (1e-300, .5, dn(1.0), .25)]
            out += [(fam, (n, v), False) for v in (0., 1., up(1.0), -.5, 1.5, NAN, INF, -INF, -5e-324)]
    for v, g in pos + neg:
        out.append(("Exponential", (v,), g))
        for m in (0., -3., 2.5):
            for fam in ("Cauchy", "Gaussian", "Laplace", "Logistic"):
                out.append((fam, (m, v), g))
            if v < 1e100 or not g:
                out.append(("Lognormal", (m, v), g))
        for w, h in [(1., True), (2., True), (0., False), (-1., False), (NAN, False)]:
            out.append(("Gamma", (v, w), g and h))
            out.append(("Gamma", (w, v), g and h))
            if not (v == 5e-324 or v == 1e-300):
                out.append(("Beta", (v, w, 0., 1.), g and h))
                out.append(("Beta", (w, v, -1., 1.), g and h))
    for a, b in [(0., 1.), (-1., 1.), (1., up(1.0)), (-5., -4.), (-1e300, 1e300), (0., 5e-324), (-0., 1.)]:
        out.append(("Uniform", (a, b), True))
        out.append(("Uniform", (b, a), False))
        out.append(("Uniform", (a, a), False))
        out.append(("Beta", (2., 3., a, b), True))
        out.append(("Beta", (2., 3., b, a), False))
        out.append(("Beta", (2., 3., a, a), False))
        out.append(("Triangular", (a, b, a), True))
        out.append(("Triangular", (a, b, b), True))
        out.append(("Triangular", (a, b, up(b)), False))
        out.append(("Triangular", (a, b, dn(a)), False))
        out.append(("Triangular", (b, a, a), False))
        out.append(("Triangular", (a, a, a), False))
    for v in (NAN,):
        out += [("Uniform", (v, 1.), False), ("Uniform", (0., v), False), ("Beta", (1., 1., v, 1.), False), ("Beta", (1., 1., 0., v), False),
                ("Triangular", (v, 1., .5), False), ("Triangular", (0., v, .5), False), ("Triangular", (0., 1., v), False),
                ("Pert", (v, .5, 1.), False), ("Pert", (0., v, 1.), False), ("Pert", (0., .5, v), False)]
    for a, b, c, g in [(0., .5, 1., True), (-1., 0., 1., True), (0., 0., 1., False), (0., 1., 1., False), (0., 2., 1., False), (0., -1., 1., False),
                       (1., .5, 0., False), (0., 0., 0., False), (0., up(0.), 1., True), (0., dn(1.), 1., True), (1., 3., 2., False), (3., 1., 2., False),
                       (2., 1., 3., False), (-5., -4., -3., True), (-3., -4., -5., False)]:
        out.append(("Pert", (a, b, c), g))
    for ps, g in [((1.,), True), ((.5, .5), True), ((0., 1.), True), ((.25, .25, .5), True), ((.5, .5 + 1e-13), True), ((.5, .5 - 1e-13), True),
                  ((.5, .5 + 1e-11), False), ((.5, .5 - 1e-11), False), ((.5, .4), False), ((.5, .6), False), ((), False), ((0.,), False), ((0., 0.), False),
                  ((-.5, 1.5), False), ((1.5, -.5), False), ((-.25, .25, 1.), False), ((NAN, 1.), False), ((.5, NAN), False), ((2.,), False), ((1., 1., -1.), False),
                  ((1.0, 1e-11), False), ((1e-3,) * 1000, True), ((1.0, -1e-13), False), ((up(1.0),), False), ((.999999,), False), ((0.5, 0.25, 0.25, 0.0), True)]:
        out.append(("Categorical", ps, g))
    return out


ACC = {"Bernoulli": ["p", "q"], "Beta": ["alpha", "beta", "a", "b"], "Binomial": ["n", "p", "q"], "Cauchy": ["x_0", "gamma"], "Exponential": ["lambda"],
       "Gamma": ["k", "theta"], "Gaussian": ["mu", "sigma"], "Laplace": ["mu", "b"], "Logistic": ["mu", "s"], "Lognormal": ["mu", "sigma"],
       "Pert": ["a", "b", "c", "alpha", "beta"], "Triangular": ["a", "b", "c"], "Uniform": ["a", "b"], "Categorical": ["k"]}


def C14(ctx):
    cs = [c for c in ctor_cases() if ctx.fams is None or c[0] in ctx.fams]
    for (fam, ps, good), o in zip(cs, ctx.real([(fam, "new", ps, None) for fam, ps, _ in cs])):
        q = (fam, "new", ps, None)
        if good and o[0] != "ok":
            ctx.bad(q, o, "an object", "constructor rejects valid parameters")
        elif not good and o[0] != "panic":
            ctx.bad(q, o, "a panic", "constructor accepts invalid parameters (debug assertions on)")
        else:
            ctx.sample(fam, "new", tuple(ps)[:4], "accepted" if good else "rejected")
    for fam in ctx.only(FAM):
        f = FAM[fam]
        L = [ps for a, ps, g in cs if a == fam and g and all(1e-100 < abs(v) < 1e100 or v == 0 for v in ps)]
        for ps in gen.params(fam, ctx.r, 12, 12 * ctx.scale) + L:
            env = oracle.env_of(f, ps)
            names = ACC[f.fam]
            reqs = [(fam, a, ps, None) for a in names] + [(fam, "clone", ps, None)]
            out = ctx.real(reqs)
            for q, o in zip(reqs[:-1], out[:-1]):
                a = q[1]
                want = specs.evalmp(f.acc[a], env)
                exact = a not in ("alpha", "beta") or f.fam == "Beta"
                if fam.startswith("B") and "." in fam or (f.fam in ("Bernoulli", "Binomial") and a == "q"):
                    exact = (fam.endswith("failure") and a == "q") or a == "n"
                if o[0] != "ok" or not (mpf(o[1][0]) == want if exact else abs(mpf(o[1][0]) - want) <= 4e-16 * max(abs(want), 1 if a in ("alpha", "beta") and f.fam == "Pert" else abs(want)) * (20 if f.fam == "Pert" else 1) + pert_slack(f, ps)):
                    ctx.bad(q, o, want, "accessor")
            if fam == "Categorical":
                o = ctx.real([(fam, "p", ps, None)])[0]
                if o != ("ok", list(ps)):
                    ctx.bad((fam, "p", ps, None), o, str(list(ps)), "accessor")
            got = [o[1][0] if o[0] == "ok" else None for o in out[:-1]]
            if out[-1][0] != "ok" or [float(v) for v in out[-1][1]] != [None if v is None else float(v) for v in got]:
                ctx.bad(reqs[-1], out[-1], str(got), "a clone reports other parameters")


def pert_slack(f, ps):
    if f.fam != "Pert":
        return 0
    return 2e-15 * 6 * max(abs(v) for v in ps) / (ps[2] - ps[0])


# ------------------------------------------------------------------ C18
def C18(ctx):
    r = ctx.r
    L = [(1., 2.), (2., 1.), (0., 1., 2.), (1., 1., 2.), (-1., 1.), (1e8, 1e8 + 1), (0., 0., 0., 1.), (3., 3., 3., 4.), (1., 2., 3., 4., 5., 6., 7., 8.),
         (1e-5, 2e-5), (-3., -5., 9., 1., 1.), tuple(float(i) for i in range(100))]
    for _ in range(60 * ctx.scale):
        n = r.choice([2, 3, 4, 5, 8, 17, 64, 65, 100, 129, 256, 1000, r.randint(2, 40)])
        m, s = r.choice([0., r.uniform(-10, 10), 100.]), lu(r, 1e-2, 1e2)
        v = [r.gauss(m, s) for _ in range(n)]
        if r.random() < .2:
            v[r.randrange(n)] += 50 * s
        L.append(tuple(v))
        if r.random() < .3:
            r.shuffle(v)
            L.append(tuple(v))
    for ps in L:
        if len(set(ps)) < 2:
            continue
        n = len(ps)
        m = mp.fsum([mpf(v) for v in ps]) / n
        sd = mp.sqrt(mp.fsum([(mpf(v) - m) ** 2 for v in ps]) / (n - 1))
        fam = "Gaussian.from_iter"
        for a, want in (("mu", m), ("sigma", sd), ("mean", m), ("deviation", sd)):
            q = (fam, a, ps, None)
            o = ctx.real([q])[0]
            mag = max(abs(v) for v in ps)
            if o[0] != "ok" or not abs(mpf(o[1][0]) - want) <= (1e-12 * abs(want) if "m" in a else 1e-11 * want) + 4e-16 * n * mag:
                ctx.bad(q, o, want, "gaussian collected from data")
            else:
                ctx.sample(fam, a, "of", str(n), "numbers =", o[1][0])


# ------------------------------------------------------------------ C19
def C19(ctx):
    r, k = ctx.r, ctx.scale
    reqs = []
    e = [10. ** -j for j in (1, 3, 6, 9, 12, 16, 20, 50, 100, 200, 290)]
    F = lambda f: ctx.fams is None or f in ctx.fams
    for lam in (1., .1, 3., 50.):
        reqs += [("Exponential", "distribution", (lam,), v * c) for v in e for c in (1, r.uniform(1, 9))]
        reqs += [("Exponential", "inverse", (lam,), v * c) for v in e for c in (1, r.uniform(1, 9))]
    for v in e + [v * r.uniform(1, 9) for v in e]:
        for fam in ("Bernoulli", "Bernoulli.with_failure"):
            reqs += [(fam, m, (v,), a) for m, a in (("mass", 0), ("mass", 1), ("variance", None), ("mean", None))]
            reqs += [(fam, "distribution", (v,), 0.5)]
        if v > 1e-200:
            for n in (1, 5, 40, 1000):
                reqs += [("Binomial", "mass", (n, v), x) for x in (0, 1, 2) if x <= n]
                reqs += [("Binomial.with_failure", "mass", (n, v), n - x) for x in (0, 1, 2) if x <= n]
                reqs += [(fam, m, (n, v), None) for fam in ("Binomial", "Binomial.with_failure") for m in ("variance",)]
                if v > 1e-17:
                    reqs += [("Binomial.with_failure", "distribution", (n, v), float(n - 1)), ("Binomial.with_failure", "distribution", (n, v), 0.)]
    for n, p in ((50, .01), (100, .5), (500, .1), (2000, .3), (100, .99), (700, .25), (16, .3), (40, .6), (90, .45)):
        for x in sorted({0, 1, 2, n, n - 1, n // 2, n // 3, n - 7, r.randint(0, n), r.randint(0, n), r.randint(0, n)}):
            reqs.append(("Binomial", "mass", (n, p), x))
            reqs.append(("Binomial.with_failure", "mass", (n, p), x))
    for mu, s in ((0., 1.), (5., 2.), (-3., .5)):
        for z in (-1., -5., -20., -50., -200., -600., -700.):
            reqs += [(f, "distribution", (mu, s), mu + z * s * c) for f in ("Logistic", "Laplace") for c in (1, r.uniform(.9, 1))]
            reqs += [(f, "density", (mu, s), mu + z * s * c * sg) for f in ("Logistic", "Laplace") for c in (1, r.uniform(.9, 1)) for sg in (1, -1)]
        for z in (-1., -5., -20., -37.):
            reqs += [("Gaussian", "density", (mu, s), mu + z * s * c) for c in (1, -1)]
    for v in e:
        for al, be in ((1., 1.), (2., 3.), (.5, .5), (3., 1.5)):
            if v > 1e-60:
                reqs.append(("Beta", "distribution", (al, be, 0., 1.), v))
            reqs.append(("Beta", "density", (al, be, 0., 1.), v))
        for kk in (1., 2., .5, 4.):
            if v > 1e-60:
                reqs.append(("Gamma", "distribution", (kk, 1.), v))
            reqs.append(("Gamma", "density", (kk, 1.), v))
    reqs = [q for q in reqs if F(q[0])]

    def skip(q, got):
        t = expected(*q[:4])
        if q[0] == "Gamma" and q[1] == "distribution" and t < mpf("1e-30"):
            return True     # the dependency flushes the incomplete gamma function
        return t is not ANY and (abs(t) < mpf("1e-290"))
    check_values(ctx, reqs, 2e-9, 0, "small value loses relative accuracy", skip=skip, delta=mpf("1e-14"))
    # lower-tail gaussian quantile: relative accuracy of the quantile itself
    for fam in ("Gaussian", "Gaussian.default"):
        if not F(fam):
            continue
        for ps in ([(0., 1.), (0., 2.)] if fam == "Gaussian" else [()]):
            for v in e + [v * r.uniform(1, 9) for v in e] + [1e-305, .07, 1.3e-11, 1.4e-11]:
                q = (fam, "inverse", ps, v)
                o = ctx.real([q])[0]
                want = specs.evalmp(specs.fn("phiinv", specs.p_), {specs.p_: mpf(v)}) * (ps[1] if ps else 1)
                if o[0] != "ok" or not abs(mpf(o[1][0]) - want) <= 5e-13 * abs(want):
                    ctx.bad(q, o, want, "lower-tail gaussian quantile")
