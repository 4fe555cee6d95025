"""Inputs for the run-time checks of contracts on the real code: boundary values,
branch-straddling values, literals mined from the current code, and random values."""
import math, random
from specs import FAM

NAMES = list(FAM)


def up(x, k=1):
    for _ in range(k):
        x = math.nextafter(x, math.inf)
    return x


def dn(x, k=1):
    for _ in range(k):
        x = math.nextafter(x, -math.inf)
    return x


def lu(r, lo, hi):
    return math.exp(r.uniform(math.log(lo), math.log(hi)))


def params_fixed(fam):
    f = fam.split(".")[0]
    if fam.endswith(".default"):
        return [()]
    if f == "Bernoulli":
        return [(p,) for p in (0.5, 0.25, 0.75, 0.1, 0.9, 1e-3, 1e-9, up(0.5), dn(0.5), 1 / 3, 0.999)]
    if f == "Beta":
        sh = [(1, 1), (1, 2), (2, 1), (2, 2), (.5, .5), (.5, 1), (1, .5), (.5, 2), (2, .5), (1, 3.5), (3.5, 1), (2, 3), (3, 2),
              (1.5, 4.5), (7, 7), (.3, .7), (.3, .3), (30, 70), (70, 30), (1.0000001, 1), (up(1.0), dn(1.0)), (300, 200), (12, 12),
              (dn(1.0), 3), (3, dn(1.0)), (2, 1.5), (1.01, 8), (8, 1.01), (0.05, 0.1), (5, 0.2), (0.2, 5)]
        iv = [(0.0, 1.0), (-1.0, 2.0), (2.0, 5.0), (-7.0, -3.0), (10.0, 10.5)]
        return [(float(a), float(b)) + iv[i % len(iv)] for i, (a, b) in enumerate(sh)] + \
            [(float(a), float(b)) + iv[(i + 1) % len(iv)] for i, (a, b) in enumerate(sh)]
    if f == "Pert":
        return [(0., .5, 1.), (-1., .5, 2.), (0., .1, 1.), (0., .9, 1.), (1., 2., 5.), (-5., -2., -1.), (10., 10.5, 12.), (0., 3., 100.),
                (-3., 0., 3.), (0., 0.001, 1.), (-1., 1., 2.), (2., 5., 9.)]
    if f == "Binomial":
        ns = [1, 2, 3, 4, 5, 7, 10, 15, 16, 17, 20, 31, 35, 36, 37, 50, 64, 80, 81, 100, 161, 500, 501, 502, 998, 999, 1000, 1001, 1002]
        ps = [0.5, 0.25, 0.75, 0.1, 0.9, 1 / 3, 0.01, 0.99, 0.001, 0.6]
        out = [(n, ps[(i * 3 + j) % len(ps)]) for i, n in enumerate(ns) for j in range(4)]
        out += [(1, p) for p in ps] + [(2, p) for p in ps] + [(3, .5), (9, .5), (9, .1), (19, 0.05), (99, 0.01), (101, .5)]
        out += [(320, .5), (321, .5), (10000, .5), (10001, .5), (10000, .008), (10001, .008), (10001, 0.0080001), (20000, .3), (5000, .001),
                (1000, .08), (1000, .088), (1000, .087), (1000, .9), (2000, .5), (100000, .001), (3000, .0005), (1000, 1e-6), (999, 1e-6),
                (30, 1e-12), (200, .95), (700, .01), (999, .3), (999, .5), (600, .5), (1200, .99)]
        return out
    if f == "Categorical":
        L = [(1.,), (.5, .5), (.25, .75), (.75, .25), (0., 1.), (1., 0.), (.25, .25, .5), (.5, .25, .25), (.5, .5, 0.), (0., .5, .5),
             (.5, 0., .5), (.2, .2, .2, .2, .2), (.1, .2, .3, .4), (.4, .3, .2, .1), (0., 0., 1.), (0., 1., 0.), (.125, .375, .125, .375),
             (.3, .3, .4), (.25, .25, .25, .25), (0., .25, .25, .25, .25), (.25, .25, .25, .25, 0.), (0., .3, 0., .7, 0., 0.),
             (.1, .1, .1, .1, .6), (.6, .1, .1, .1, .1), tuple([1 / 7.] * 7), tuple([0.1] * 10), (.05, .45, .2, .3), (.45, .1, .45),
             (.5, .25, .125, .125), (.2, .3, .25, .25), tuple([1 / 64.] * 64), (.375, .25, .375), (1/3., 1/3., 1/3.), (.15, .7, .15)]
        return L
    two = {
        "Cauchy": [(0., 1.), (1., 2.), (-3., .5), (2., 8.), (100., .01), (-7., 1e3)],
        "Gamma": [(1., 1.), (.5, 1.), (2., 3.), (1., .25), (.1, 2.), (9., .5), (7.5, 1.), (100., .1), (200., 1.), (1000., .01),
                  (up(1.0), 1.), (dn(1.0), 2.), (3., 2.), (.9, 4.), (1.5, 1e-3), (40., 100.), (1/3., 1.), (2/3., 1.), (5., 1.), (.02, 1.)],
        "Gaussian": [(0., 1.), (1., 2.), (-3., .5), (2., 8.), (100., .01), (-7., 1e3), (0., 1e-3)],
        "Laplace": [(0., 1.), (2., 8.), (-3., .5), (1., 2.), (100., .25)],
        "Logistic": [(0., 1.), (5., 2.), (-3., .5), (2., 8.), (9., 3.), (100., .25)],
        "Lognormal": [(0., 1.), (1., 2.), (-3., .5), (2., .25), (-1., .1), (0., 3.), (0., 1e-3), (1., 1e-6), (-2., 1e-9), (100., 1.), (-100., .5)],
        "Uniform": [(0., 1.), (-1., 1.), (2., 5.), (-7., -3.), (10., 10.5), (-1e3, 1e3), (25., 42.)],
        "Exponential": [(1.,), (2.,), (.5,), (.1,), (10.,), (3.,), (1e-3,), (1e3,)],
        "Triangular": [(0., 1., .5), (0., 1., 0.), (0., 1., 1.), (1., 5., 3.), (-2., 3., -1.), (-2., 3., 2.5), (-2., 3., .5), (1., 5., 1.), (1., 5., 5.),
                       (-10., -4., -9.), (0., 1., .25), (0., 1., .75), (2., 6., 4.5), (-1., 1., 0.), (0., 10., up(5.)), (0., 10., dn(5.))],
    }
    return two[f]


def params_random(fam, r, lits=()):
    f = fam.split(".")[0]
    if fam.endswith(".default"):
        return ()
    if f == "Bernoulli":
        return (r.choice([r.random(), lu(r, 1e-12, .5), 1 - lu(r, 1e-12, .5)]),)
    if f == "Beta":
        a = r.choice([0., r.uniform(-5, 5)])
        sh = lambda: r.choice([lu(r, .05, 50), r.uniform(.2, 5), float(r.randint(1, 6)), 1.0, lu(r, 1, 500)])
        x = sh()
        y = x if r.random() < .1 else sh()
        return (x, y, a, a + r.choice([1., lu(r, .1, 20)]))
    if f == "Pert":
        a = r.uniform(-5, 5)
        w = lu(r, .1, 50)
        return (a, a + w * r.uniform(.01, .99), a + w)
    if f == "Binomial":
        n = r.choice([r.randint(1, 12), r.randint(1, 60), r.randint(1, 999), int(lu(r, 1, 999)), r.randint(998, 1003), int(lu(r, 1000, 30000))])
        if lits and r.random() < .1:
            v = r.choice(lits)
            if 1 <= abs(v) <= 20000:
                n = max(1, int(abs(v)) + r.choice([-1, 0, 0, 1]))
        p = r.choice([r.random(), lu(r, 1e-6, .5), 1 - lu(r, 1e-4, .5), r.randint(1, 7) / 8., r.randint(1, 9) / 10.])
        return (n, p)
    if f == "Categorical":
        k = r.choice([1, 2, 3, 4, 5, 6, 8, 13, r.randint(1, 40)])
        den = r.choice([8, 16, 64, 1024])
        if r.random() < .5:     # exactly representable, with ties and zeros
            w = [0] * k
            for _ in range(den):
                w[r.choice(range(k)) if r.random() < .6 else 0] += 1
            r.shuffle(w)
            return tuple(v / den for v in w)
        w = [r.random() ** r.choice([1, 4]) if r.random() > .15 else 0. for _ in range(k)]
        s = math.fsum(w)
        if s == 0:
            return (1.,)
        return tuple(v / s for v in w)
    loc = lambda: r.choice([0., r.uniform(-10, 10), r.gauss(0, 100), float(r.randint(-5, 5))])
    sc = lambda: r.choice([1., lu(r, 1e-3, 1e3), lu(r, .1, 10), float(r.randint(1, 9))])
    if f == "Exponential":
        return (sc(),)
    if f == "Gamma":
        return (r.choice([lu(r, .02, 300), r.uniform(.1, 4), float(r.randint(1, 20)), 1.0]), sc())
    if f == "Lognormal":
        return (r.uniform(-3, 3), r.choice([lu(r, .05, 2.5), lu(r, .05, 2.5), lu(r, 1e-9, .05)]))
    if f == "Uniform":
        a = loc()
        return (a, a + sc())
    if f == "Triangular":
        a = loc()
        b = a + sc()
        u = r.random()
        c = a if u < .15 else b if u < .3 else (a + b) / 2 if u < .35 else a + (b - a) * r.random()
        return (a, b, min(max(c, a), b))
    return (loc(), sc())


def ok(fam, ps):
    f = fam.split(".")[0]
    if f == "Uniform":
        return not ps or ps[0] < ps[1]
    if f == "Triangular":
        return ps[0] < ps[1] and ps[0] <= ps[2] <= ps[1]
    if f == "Pert":
        return ps[0] < ps[1] < ps[2]
    if f == "Beta":
        return ps[2] < ps[3]
    if f == "Bernoulli":
        return 0 < ps[0] < 1
    if f == "Binomial":
        return 0 < ps[1] < 1
    if f == "Categorical":
        return abs(sum(ps) - 1) < 1e-12
    return True


# inputs on the paths of the current code (from solver models and path witnesses)
TP, TX = {}, {}
TMAX = 60


def add_target(fam, ps, method, arg):
    ps = tuple(ps)
    l = TP.setdefault(fam, [])
    if ps not in l and ps not in params_fixed(fam):
        l.append(ps)
    if arg is not None:
        d = TX.setdefault((fam, ps), {"x": [], "k": [], "p": []})
        k = {"mass": "k", "inverse": "p"}.get(method, "x")
        if arg not in d[k]:
            d[k].append(arg)


def targets(fam, ps, k):
    return TX.get((fam, tuple(ps)), {}).get(k, [])[:40]


def params(fam, r, nfix, nrand, lits=()):
    out = params0(fam, r, nfix, nrand, lits)
    t = [p for p in TP.get(fam, []) if p not in out]
    return out + t[:TMAX] + [p for p in params_fixed(fam) if (fam, tuple(p)) in TX and p not in out][:TMAX]


def params0(fam, r, nfix, nrand, lits=()):
    fx = params_fixed(fam)
    if len(fx) > nfix:
        head = fx[:nfix // 2]
        fx = head + r.sample(fx[nfix // 2:], nfix - len(head))
    out = list(fx)
    if not fam.endswith(".default"):
        while len(out) < len(fx) + nrand:
            p = params_random(fam, r, lits)
            if ok(fam, p):
                out.append(p)
    return out


def anchors(fam, ps):
    """interesting abscissae of the distribution: (points, scale)"""
    f = fam.split(".")[0]
    if fam.endswith(".default"):
        ps = {"Uniform": (0., 1.)}.get(f, (0., 1.))
    if f == "Beta":
        return [ps[2], ps[3], (ps[2] + ps[3]) / 2], ps[3] - ps[2]
    if f == "Pert":
        return list(ps), ps[2] - ps[0]
    if f == "Triangular":
        return list(ps) + [(ps[0] + ps[1]) / 2], ps[1] - ps[0]
    if f == "Uniform":
        return list(ps), ps[1] - ps[0]
    if f == "Exponential":
        return [0., 1 / ps[0]], 1 / ps[0]
    if f == "Gamma":
        return [0., ps[0] * ps[1], max(ps[0] - 1, 0) * ps[1]], ps[1] * math.sqrt(ps[0])
    if f == "Lognormal":
        return [0., math.exp(ps[0]), math.exp(ps[0] - ps[1] ** 2)], math.exp(ps[0]) * ps[1]
    return [ps[0]], ps[1]


def xs(fam, ps, r, n, lits=()):
    """arguments for density / CDF of continuous families"""
    an, sc = anchors(fam, ps)
    out = []
    for a in an:
        out += [a, up(a), dn(a), a + sc * 1e-9, a - sc * 1e-9, a + .1 * sc, a - .1 * sc, a + sc, a - sc]
    out += [0.0, -0.0, 1.0, an[0] - 3 * sc, an[-1] + 3 * sc]
    f = fam.split(".")[0]
    lo, hi = min(an), max(an)
    for _ in range(n):
        u = r.random()
        if u < .5:
            if hi > lo and f in ("Beta", "Pert", "Triangular", "Uniform"):
                x = lo + (hi - lo) * r.random()
            else:
                x = r.choice(an) + sc * r.gauss(0, 1.5)
                if f in ("Exponential", "Gamma", "Lognormal"):
                    x = abs(x)
        elif u < .8:
            x = r.choice(an) + sc * r.choice([-1, 1]) * lu(r, 1e-6, 30)
        elif u < .9 and lits:
            x = r.choice(an) + sc * r.choice(lits) if r.random() < .5 else float(r.choice(lits))
        else:
            x = r.choice(an) + sc * r.choice([-1, 1]) * lu(r, 1e-3, 1e4)
        out.append(x)
    out += targets(fam, ps, "x")
    sub = f in ("Beta", "Pert", "Gamma", "Triangular", "Uniform", "Lognormal")
    return [x for x in dict.fromkeys(out) if math.isfinite(x) and not (sub and 0 < abs(x) < 1e-290)]


def ks(fam, ps, r, n):
    """outcomes for the mass of discrete families"""
    f = fam.split(".")[0]
    if f == "Bernoulli":
        return [0, 1, 2, 3, 17, 255, 128]
    if f == "Categorical":
        return list(range(len(ps)))
    N, p = int(ps[0]), ps[1]
    if fam.endswith("failure"):
        p = 1 - p
    m, sd = N * p, math.sqrt(N * p * (1 - p)) + 1
    out = {0, 1, 2, N, N - 1, N - 2, N + 1, N + 2, 2 * N + 3, N // 2, int(m), int(m) + 1, 10 ** 9 + N}
    for t in (15, 16, 17, 35, 36, 80, 81, 500, 501):
        out |= {t, N - t}
    for _ in range(n):
        out |= {r.randint(0, N), int(r.gauss(m, 2 * sd)), int(r.gauss(m, 8 * sd))}
    # around the boundary of the series |x - np| = 0.1 (x + np)
    for c in (m * 9 / 11, m * 11 / 9):
        out |= {int(c), int(c) + 1}
    for c in (N * (1 - p) * 9 / 11, N * (1 - p) * 11 / 9):
        out |= {N - int(c), N - int(c) - 1}
    out = sorted(k for k in out if k >= 0)
    if len(out) > 3 * n + 12:
        out = sorted(set(r.sample(out, 3 * n)) | {0, 1, N, max(0, N - 1), N + 1, int(m)})
    return sorted(set(out) | set(targets(fam, ps, "k")))


def dxs(fam, ps, r, n):
    """arguments for the CDF of discrete families"""
    out = [-1.0, -1e-300, -0.0, 0.0, .5, dn(1.0), 1.0, 2.0, 1.5, 1e9, -1e9, 1e300]
    if fam.startswith("Bernoulli"):
        return out + [up(1.0), dn(0.0), .999, 3.7]
    K = ks(fam, ps, r, n)
    for k in K:
        out += [float(k), k + r.choice([0., .25, .5, .999]), k - 1e-9]
        if k:
            out.append(dn(float(k)))
    out += targets(fam, ps, "x")
    return list(dict.fromkeys(out))


PSPEC = [0.5, 0.25, 0.75, 0.1, 0.9, 0.01, 0.99, 0.001, 0.999, 1e-6, 1 - 1e-6, 1e-12, 0.075, 0.925, dn(0.075), up(0.075), up(0.925),
         0.0754, 0.9246, 0.05, 0.95, 0.2, 0.8, 0.3, 0.7, dn(0.5), up(0.5), 1 / 3, 2 / 3, 1.388e-11, 1.389e-11, 1e-15, 1e-30, 1e-100, 1e-300,
         1 - 2 ** -53, 1 - 2 ** -40]


def probs(r, n, lits=()):
    out = r.sample(PSPEC, min(len(PSPEC), max(6, n // 2)))
    for _ in range(n):
        u = r.random()
        out.append(r.random() if u < .6 else lu(r, 1e-12, .5) if u < .8 else 1 - lu(r, 1e-12, .5))
    out += [v for v in r.sample(list(lits), min(len(lits), 4)) if 0 < v < 1]
    return list(dict.fromkeys(out))


def pdisc(fam, ps, r, n, cdfs):
    """probabilities straddling the atoms of a discrete family; cdfs: doubles of the real CDF"""
    out = []
    for c in cdfs:
        if 0 < c < 1:
            out += [c, up(c), dn(c), c + (1 - c) * 1e-6, c * (1 - 1e-6)]
    return out
