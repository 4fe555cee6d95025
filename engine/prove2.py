"""Obligations beyond the scalar postconditions: totality, constructors, sampling,
the independent sampler, collected gaussians."""
import re, time
from fractions import Fraction as Q
import world, symex, smt, specs, canon, lib, loops
from canon import Canon
from specs import FAM
from symex import *
from term import *
import itertools

X, P_, K_ = specs.x_, specs.p_, specs.k_


# ------------------------------------------------------------------ C15 totality
def ops_of(F):
    ms = [m for m in F.m if m != "deviation"] + (["deviation"] if "deviation" in F.m else [])
    if F.modes is not None or F.fam in ("Categorical",):
        ms.append("modes")
    if F.fam in ("Binomial", "Categorical"):
        ms += ["inverse", "median"]
    return ms + ["sample"]


def run_sample(p, F):
    st, v, ex0, _ = p.W.obj(F)
    ex = p.W.exec()
    loops.install(ex, p.W)
    f = p.W.func(ex, F, "sample")
    if f is None or f.blocks is None:
        raise Unsupported("sample of %s not found" % F.name)
    ex.contracts.pop(f.name, None)
    s = st.fork()
    src = Agg("opaque", "source", None, ())
    outs = ex.run(f, [ex.heap(s, v), ex.heap(s, src)], s)
    p.functions.add(f.name)
    p.functions.update(ex.entered)
    p.libs |= ex.used_lib
    p.used |= ex.used_contracts
    return ex, outs, src


def total_outs(p, F, meth, base, ex, outs):
    n = 0
    for i, o in enumerate(outs):
        pc = list(o.st.pc)
        if o.kind == "panic":
            p.ob("%s/path%d cannot panic (%s)" % (base, i, str(o.val)[:40]), p.dead(pc), F, meth, pc, str(o.val))
        elif o.kind == "ret":
            n += 1
            vs = [o.val]
            if isinstance(o.val, Agg):
                vs = list(o.val.f)
            bad = [v for v in vs if isinstance(v, str) and v == NAN]
            if bad:
                by = p.infeasible(pc)
                p.ob("%s/path%d is not NaN" % (base, i), ("proved", by) if by else ("open", "refuted"), F, meth, pc, "NaN")
            else:
                p.ob("%s/path%d returns a number" % (base, i), ("proved", "extended reals"), F, meth, pc)
    if n == 0:
        p.ob(base + "/returns", ("open", ""), F, meth, ())
    for nm, pc, goal in ex.checks:
        p.goal("%s/requires: %s" % (base, nm), list(pc), goal, F, meth)
    for l in ex.loop_obl:
        p.ob("%s/loop of %s terminates: %s" % (base, l["function"].split("::")[-1], l["variant"]),
             ("proved", "z3") if l["variant"] else ("open", ""), F, meth)


def C15(p):
    for F in FAM.values():
        for meth in ops_of(F):
            for arg in (("fin", PINF, NINF) if meth in ("density", "distribution") else ("fin",)):
                base = "%s::%s%s" % (F.name, meth, "" if arg == "fin" else "(%s)" % arg)
                try:
                    if meth == "sample":
                        ex, outs, _ = run_sample(p, F)
                    else:
                        ex, outs, _ = p.run_method(F, meth, arg)
                    total_outs(p, F, meth, base, ex, outs)
                except Unsupported as e:
                    p.lost(base, e, F, meth)
        if F.fam == "Categorical":
            st, v, ex0, outs = p.W.obj(F)
            total_outs(p, F, "new", "Categorical::new", ex0, outs)
        if F.fam == "Binomial":
            import prove3
            prove3.discrete(p, F)      # the step of the CDF, used for the loops of the quantile
    for name, args, pre, call in KERNELS:
        try:
            ex, outs = run_free(p, name, args, pre)
            total_outs(p, None, None, name.split("distribution::")[-1], ex, outs)
        except Unsupported as e:
            p.lost(name, e)


kk, nn, xx = var("k_"), var("n_"), var("x_")
SRC = object()
KERNELS = [("distribution::gaussian::inverse", [P_], [le(ZERO, P_), le(P_, ONE)], None),
           ("distribution::gamma::sample", [kk, SRC], [lt(ZERO, kk)], None),
           ("distribution::gamma::sample_ln", [kk, SRC], [lt(ZERO, kk)], None),
           ("distribution::gaussian::sample", [SRC], [], None),
           ("distribution::binomial::stirlerr", [nn], [lt(ZERO, nn)], None),
           # x = S (1 + v) / 2 and np = S (1 - v) / 2 with S > 0 and |v| < 1: all positive x and np
           ("distribution::binomial::ln_d0", [mul(const(Q(1, 2)), var("S"), add(ONE, var("v"))), mul(const(Q(1, 2)), var("S"), sub(ONE, var("v")))],
            [lt(ZERO, var("S")), lt(neg(ONE), var("v")), lt(var("v"), ONE)], None)]


def run_free(p, name, args, pre):
    ex = p.W.exec()
    loops.install(ex, p.W)
    f = p.W.m.funcs.get(name)
    if f is None or f.blocks is None:
        raise Unsupported("function %s not found" % name)
    if name.endswith("::ln_d0"):
        import prove6
        ex.absorb, ex.unroll = prove6.absorb, 16
    st = St(pc=pre)
    a = []
    for t in args:
        a.append(ex.heap(st, Agg("opaque", "source", None, ())) if t is SRC else Fl(t))
    outs = ex.run(f, a, st)
    p.functions.add(name)
    p.functions.update(ex.entered)
    p.libs |= ex.used_lib
    p.used |= ex.used_contracts
    return ex, outs


# ------------------------------------------------------------------ C14 constructors
def tagged(b, tags):
    """a comparison between parameters under an assignment of special values"""
    if b.op == "and":
        vs = [tagged(x, tags) for x in b.a]
        return conj(*vs)
    op = {"lt": "Lt", "le": "Le", "eq": "Eq"}[b.op]
    return fcmp(op, tagged_v(b.a[0], tags), tagged_v(b.a[1], tags))


def tagged_v(t, tags):
    if t in tags:
        return tags[t]
    return Fl(t)


def C14(p):
    for F in FAM.values():
        base = "%s::%s" % (F.name, F.ctor)
        try:
            ctor(p, F, base)
        except Unsupported as e:
            p.lost(base, e, F, "new")
        accessors(p, F)
        cloned(p, F)


def ctor(p, F, base):
    f = p.W.func(p.W.exec(), F, "new")
    if f is None:
        raise Unsupported("constructor not found")
    if F.fam == "Categorical":
        return ctor_categorical(p, F, base, f)
    fl = [q for q in F.params if q.s == "R"]
    combos = [{}]
    for q in fl:
        combos += [{q: t} for t in (NAN, PINF, NINF)]
    for a, b in itertools.permutations(fl, 2):
        combos += [{a: NINF, b: PINF}]
    for tags in combos:
        ex = p.W.exec()
        ex.contracts.pop(f.name, None)
        st = St(pc=[c for q in F.params if q.s == "I" for c in (le(IZERO, q), lt(q, const(symex.U64, "I")))])
        args = [q if q.s == "I" else Fl(q) if q not in tags else tags[q] for q in F.params]
        nm = base + ("" if not tags else "(%s)" % ", ".join("%s=%s" % (show(k), v) for k, v in tags.items()))
        try:
            outs = ex.run(f, args, st)
        except Unsupported as e:
            if tags and PINF in tags.values() or NINF in tags.values():
                continue          # infinite parameters satisfying the inequalities lead outside the reals
            p.lost(nm, e, F, "new")
            continue
        p.functions.add(f.name)
        want = conj(*[tagged(b, tags) for b in F.pre])
        for i, o in enumerate(outs):
            pc = list(o.st.pc)
            if o.kind == "ret":
                p.goal("%s/path%d returns only if the inequalities hold" % (nm, i), pc, want, F, "new")
            elif o.kind == "panic":
                if not str(o.val).startswith("assertion failed") and not str(o.val).startswith('"assertion failed') and "::" not in str(o.val):
                    pass
                p.goal("%s/path%d panics only if they do not" % (nm, i), pc, neg_b(want), F, "new")
        if not tags and not any(o.kind == "ret" for o in outs):
            p.ob(nm + "/returns for valid parameters", ("open", ""), F, "new")


def ctor_categorical(p, F, base, f):
    """returns => every entry in [0, 1] and the sum within 1e-12 of one (debug assertions);
    valid => no panic; the partial sums satisfy the type invariant"""
    st, v, ex0, outs = p.W.obj(F)
    p.functions.add(f.name)
    for i, o in enumerate(outs):
        if o.kind == "panic":
            p.ob("%s/path%d cannot panic on a probability vector (%s)" % (base, i, str(o.val)[:40]), p.dead(list(o.st.pc)), F, "new", o.st.pc)
    for nm, pc, g in p.W.inv:
        p.goal("%s/invariant: %s" % (base, nm), list(pc), g, F, "new")
    P, K, j = specs.pk, specs.kk, specs.j_
    # any vector: run only up to the assertion, by asking which assertion paths survive
    ex = p.W.exec()
    ex.contracts.pop(f.name, None)
    ex.stop_after_asserts = True
    st = St(pc=[le(IZERO, K), lt(K, const(2 ** 62, "I"))])
    a = [ex.heap(st, SymVec(P, K))]
    outs = assertion_prefix(ex, f, a, st)
    S = sum_(j, IZERO, K, sel(P, j))
    inr = forall(j, IZERO, K, conj(le(ZERO, sel(P, j)), le(sel(P, j), ONE)))
    tol = const(Q(1, 10 ** 12))
    good = conj(inr, lt(S, add(ONE, tol)), lt(sub(ONE, tol), S))
    for i, o in enumerate(outs):
        pc = list(o.st.pc)
        if o.kind == "ret":
            p.goal("%s/path%d passes the assertion only for probability vectors" % (base, i), pc, good, F, "new")
        else:
            bad = disj(neg_b(good))
            p.goal("%s/path%d fails it only otherwise" % (base, i), pc, bad, F, "new")


def assertion_prefix(ex, f, args, st):
    """outcomes of the constructor's checks: 'ret' when control leaves them"""
    fr = Frame(f, next(ex.fid))
    st = st.fork()
    for (n, ty), a in zip(f.params, args):
        st.mem[("l", fr.fid, n)] = a
    heads = loop_heads(f)
    work, outs = [(0, st)], []
    while work:
        bb, st = work.pop()
        stmts, term = f.blocks[bb]
        pure = True
        if term[0] == "call" and ("to_vec" in term[2] or "Range" in term[2] and "contains" not in term[2] or "slice::<impl [f64]>::len" in term[2]):
            outs.append(Out("ret", st))
            continue
        if bb in heads:
            outs.append(Out("ret", st))
            continue
        states = [st]
        for s in stmts:
            states = [y for x in states for y in ex.stmt(fr, x, s, outs)]
        for x in states:
            work += ex.term(fr, x, term, outs)
        if len(outs) > 200:
            raise Unsupported("constructor checks")
    return outs


def accessors(p, F):
    if F.fam == "Categorical":
        return acc_categorical(p, F)
    for m, t in F.acc.items():
        base = "%s::%s" % (F.name, m)
        try:
            st, v, ex0, _ = p.W.obj(F)
            ex = p.W.exec()
            f = p.W.func(ex, F, m)
            if f is None:
                raise Unsupported("accessor not found")
            ex.contracts.pop(f.name, None)
            s = st.fork()
            outs = ex.run(f, [ex.heap(s, v)], s)
            p.functions.add(f.name)
            for i, o in enumerate(outs):
                if o.kind != "ret":
                    p.ob("%s/path%d" % (base, i), p.dead(list(o.st.pc)), F, "acc")
                    continue
                w = o.val.t if isinstance(o.val, Fl) else i2r(o.val) if isinstance(o.val, T) else None
                if w is None:
                    p.ob("%s/path%d" % (base, i), ("open", "refuted"), F, "acc", o.st.pc, repr(o.val))
                else:
                    p.eq("%s/path%d reports the parameter" % (base, i), list(o.st.pc), w, t, F, "acc")
        except Unsupported as e:
            p.lost(base, e, F, "acc")


def acc_categorical(p, F):
    for m in ("k", "p"):
        try:
            st, v, ex0, _ = p.W.obj(F)
            ex = p.W.exec()
            f = p.W.func(ex, F, m)
            if f is None:
                raise Unsupported("accessor not found")
            ex.contracts.pop(f.name, None)
            s = st.fork()
            for i, o in enumerate(ex.run(f, [ex.heap(s, v)], s)):
                w = o.val
                while isinstance(w, Ref):
                    w = ex.load(o.st, w.root, w.path)
                if m == "k":
                    p.goal("Categorical::k/path%d reports the parameter" % i, list(o.st.pc), eq(w, specs.kk), F, "acc")
                else:
                    ok = isinstance(w, SymVec) and w.arr is specs.pk and w.n is specs.kk
                    p.ob("Categorical::p/path%d reports the parameter" % i, ("proved", "syntactic") if ok else ("open", ""), F, "acc", o.st.pc)
            p.functions.add(f.name)
        except Unsupported as e:
            p.lost("Categorical::" + m, e, F, "acc")


def cloned(p, F):
    base = "%s::clone" % F.name
    try:
        st, v, ex0, _ = p.W.obj(F)
        ex = p.W.exec()
        f = ex.find("<%s as core::clone::Clone>::clone" % world.mod_of(F))
        if f is None:
            raise Unsupported("clone not found")
        s = st.fork()
        for i, o in enumerate(ex.run(f, [ex.heap(s, v)], s)):
            w = o.val
            while isinstance(w, Ref):
                w = ex.load(o.st, w.root, w.path)
            ok = o.kind == "ret" and isinstance(w, Agg) and len(w.f) == len(v.f) and all(same(x, y) for x, y in zip(w.f, v.f))
            p.ob("%s/path%d equals the original" % (base, i), ("proved", "syntactic") if ok else ("open", ""), F, "clone", o.st.pc)
        p.functions.add(f.name)
    except Unsupported as e:
        p.lost(base, e, F, "clone")


# ------------------------------------------------------------------ C17
def C17(p):
    ex = p.W.exec()
    f = None
    for n in p.W.m.funcs:
        if n.endswith("::next") and "sampler" in n:
            f = p.W.m.funcs[n]
    if f is None:
        return p.lost("Independent::next", Unsupported("not found"))
    st = St()
    d = ex.heap(st, Agg("opaque", "D", None, ()))
    s = ex.heap(st, Agg("opaque", "S", None, ()))
    it = ex.heap(st, Agg("adt", "Independent", None, (d, s)))
    try:
        outs = ex.run(f, [it], st)
    except Unsupported as e:
        return p.lost("Independent::next", e)
    p.functions.add(f.name)
    p.goal("Independent::next/single outcome", [], TRUE if len(outs) == 1 else FALSE)
    for i, o in enumerate(outs):
        b = "Independent::next/path%d " % i
        some = o.kind == "ret" and isinstance(o.val, Agg) and o.val.name == "Option" and o.val.variant == 1
        yes = lambda c: ("proved", "symbolic execution") if c else ("open", "refuted")
        p.ob(b + "returns Some", yes(some))
        ev = [e for e in o.st.events if e[0] == "Sample::sample"]
        p.ob(b + "draws once", yes(len(o.st.events) == 1 and len(ev) == 1 and not o.st.draws))
        if some and len(ev) == 1:
            p.ob(b + "the item is the draw", yes(o.val.f[0] is ev[0][2]))
            strip = lambda v: chase(ex, o.st, v)
            p.ob(b + "from its own distribution and source", yes(len(ev[0][1]) == 2 and strip(ev[0][1][0]) == d and strip(ev[0][1][1]) == s))
        w = o.st.mem.get(it.root)
        p.ob(b + "keeps no state", yes(isinstance(w, Agg) and len(w.f) == 2 and w.f[0] == d and w.f[1] == s or same(w, Agg("adt", "Independent", None, (d, s)))))
    extra = [n for n in p.W.m.funcs if "sampler" in n and n.split("::")[-1] not in ("next",) and "{closure" not in n]
    for n in extra:
        if n.split("::")[-1] in ("size_hint", "nth", "fold", "count", "last", "advance_by", "try_fold", "by_ref"):
            p.ob("Independent: overridden iterator method %s" % n.split("::")[-1], ("open", ""))


def chase(ex, st, v):
    """the innermost reference"""
    n = 0
    while isinstance(v, Ref) and n < 10:
        w = ex.load(st, v.root, v.path)
        if not isinstance(w, Ref):
            return Ref2(v)
        v = w
        n += 1
    return Ref2(v)


class Ref2:
    def __init__(self, r):
        self.r = r

    def __eq__(self, o):
        o = o.r if isinstance(o, Ref2) else o
        return isinstance(o, Ref) and isinstance(self.r, Ref) and self.r.root == o.root and self.r.path == o.path


# ------------------------------------------------------------------ C18
def C18(p):
    f = None
    for n in p.W.m.funcs:
        if n.endswith("::from_iter") and "gaussian" in n:
            f = p.W.m.funcs[n]
    if f is None:
        return p.lost("Gaussian::from_iter", Unsupported("not found"))
    x, n, j = var("D", "A"), var("N", "I"), var("j", "I")
    mean = div(sum_(j, IZERO, n, sel(x, j)), i2r(n))
    ss = sum_(j, IZERO, n, power(sub(sel(x, j), mean), 2))
    F = FAM["Gaussian"]
    ex = p.W.exec()
    ct = p.W.func(ex, F, "new")
    pre = [le(const(2, "I"), n), lt(n, const(2 ** 53, "I")), lt(ZERO, ss)]
    st = St(pc=pre)
    it = Agg("opaque-iter", "T", None, (SymVec(x, n),))
    try:
        outs = ex.run(f, [it], st)
    except Unsupported as e:
        return p.lost("Gaussian::from_iter", e)
    p.functions.add(f.name)
    p.used |= ex.used_contracts
    rets = 0
    for i, o in enumerate(outs):
        b = "Gaussian::from_iter/path%d " % i
        pc = list(o.st.pc)
        if o.kind == "panic":
            by = p.infeasible(pc)
            p.ob(b + "cannot panic (%s)" % str(o.val)[:40], ("proved", by) if by else ("open", ""))
            continue
        if o.kind != "ret":
            continue
        rets += 1
        v = o.val
        env = v.origin[1] if isinstance(v, Agg) and v.origin else None
        for m, want in (("mu", mean), ("sigma", sqrt(div(ss, sub(i2r(n), ONE))))):
            g = ex.find("%s::%s" % (world.mod_of(F), m))
            ex.contracts.pop(g.name, None)
            s = o.st.fork()
            for r in ex.run(g, [ex.heap(s, v)], s):
                if r.kind == "ret" and isinstance(r.val, Fl):
                    p.eq(b + {"mu": "mean is the arithmetic mean", "sigma": "deviation is the corrected sample deviation"}[m], list(r.st.pc), r.val.t, want)
                else:
                    p.ob(b + m, ("open", "refuted"), note=repr(r.val))
    if rets == 0:
        p.ob("Gaussian::from_iter/returns", ("open", ""))
    for nm, pc, goal in ex.checks:
        p.goal("Gaussian::from_iter/requires: %s" % nm, list(pc), goal)
