"""Loop invariants.

A loop with a candidate generator is cut at its head: the locals the body can change
are havocked, the candidates that hold on entry and are preserved by every path
through the body (checked by the solver, to a fixpoint) are assumed, and the paths that
come back to the head end there.  Candidates speak about values by role (an iterator,
an array, an integer, a number), never about names or block numbers."""
from term import *
import symex
from symex import Fl, Agg, SymVec, IVec, Ref, Seq, Unsupported, loop_body, same
import mirp
import mpmath as mp


def modified(f, body):
    mod = set()
    for b in body:
        stmts, t = f.blocks[b]
        for s in stmts:
            if not any(p[0] == "*" for p in s[1][1]):
                mod.add(s[1][0])
            if s[0] != "setdiscr":
                rv = mirp.parse_rvalue(s[2])
                if rv[0] == "ref" and rv[2] and not any(p[0] == "*" for p in rv[1][1]):
                    mod.add(rv[1][0])
        if t[0] == "call" and not any(p[0] == "*" for p in t[1][1]):
            mod.add(t[1][0])
    return mod


def havoc(v):
    if isinstance(v, Fl):
        return Fl(fresh("h"))
    if isinstance(v, T):
        return fresh("h", v.s)
    if isinstance(v, Seq):
        i = fresh("i", "I")
        if any(k == "rev" for k, _ in v.stages):
            return Seq(v.base, v.pos, i, v.stages)
        return Seq(v.base, i, v.end, v.stages)
    if isinstance(v, SymVec):
        return SymVec(fresh("a", "A"), v.n)
    if isinstance(v, IVec):
        return IVec(fresh("m", "A"), fresh("l", "I"))
    if isinstance(v, Agg) and v.kind == "tuple":
        return Agg(v.kind, v.name, v.variant, [havoc(x) for x in v.f])
    if isinstance(v, (Ref, symex.Agg)) and not (isinstance(v, Agg) and v.kind == "vec"):
        return v
    raise Unsupported("havoc of %r" % (v,))


SPECIAL = {"exp", "ln", "incb", "incg", "lgam", "floor", "trunc", "round", "r2i", "erf", "phiinv", "sum", "iincb", "tan", "atan"}


_plain = {}


def plain(t):
    """no special functions"""
    r = _plain.get(t)
    if r is None:
        r = _plain[t] = t.op not in SPECIAL and all(plain(u) for u in t.a if isinstance(u, T))
    return r


def seq_facts(old, v):
    """0 <= position <= end"""
    out = []
    if isinstance(old, Seq):
        out += [le(old.pos, v.pos), disj(le(v.pos, v.end), conj(eq(v.pos, old.pos), eq(v.end, old.end))), le(v.end, old.end)]
    if isinstance(old, Agg) and old.kind == "tuple":
        for a, b in zip(old.f, v.f):
            out += seq_facts(a, b)
    return out


_env = {}


def entry_points(ex):
    """arguments at which claims about a binomial quantile are tried before the solver is asked"""
    import specs
    F = getattr(ex, "loopF", None)
    if F is None or F.fam != "Binomial":
        return []
    if F.name not in _env:
        from itertools import product
        v = specs.QQ if F.q is specs.QQ else specs.P
        _env[F.name] = [({specs.n_: n, v: mp.mpf(p), specs.p_: mp.mpf(u)}, {}) for n, p, u in product((1, 2, 3, 7, 1200), (.25, .625), (.05, .4, .97))]
    return _env[F.name]


def false_at(c, env, memo):
    if c.op == "or":
        return all(false_at(h, env, memo) for h in c.a)
    if c.op == "and":
        return any(false_at(h, env, memo) for h in c.a)
    if c.op == "eq" and c.a[0].s == "R":
        x, y = (mp.mpf(evalmp(u, env, memo)) for u in c.a)
        return abs(x - y) > mp.mpf("1e-9") * (1 + abs(x))
    if c.op in ("lt", "le") and c.a[0].s == "R":
        x, y = (mp.mpf(evalmp(u, env, memo)) for u in c.a)
        return x > y + mp.mpf("1e-9")
    return not evalmp(c, env, memo)


def unfalsified(ex, st, cs):
    """the claims that no trial argument contradicts (dropping a candidate is always sound)"""
    pts = []
    for env, memo in entry_points(ex):
        try:
            if all(free(b) <= set(env) and evalmp(b, env, memo) for b in st.pc):
                pts.append((env, memo))
        except Exception:   # noqa
            pass
    out = []
    for i, c in enumerate(cs):
        bad = False
        for env, memo in pts:
            if not free(c) <= set(env):
                break
            try:
                if false_at(c, env, memo):
                    bad = True
                    break
            except Exception:   # noqa
                pass
        if not bad:
            out.append(i)
    return out


def idle(known, c):
    """does the plain part of the claim hold already?"""
    import smt
    hs = [h for h in (c.a if c.op == "or" else ()) if plain(h) and not (h.op == "eq" and h.a[0].s == "R")]
    return bool(hs) and smt.check(known + [neg_b(h) for h in hs], 300) == "unsat"


class Houdini:
    def __init__(self, gen):
        self.gen = gen

    def enter(self, ex, fr, bb, st):
        f = fr.f
        body = loop_body(f, bb)
        live = ex.liveness(f)[bb]
        mod = sorted(n for n in modified(f, body) & live if ("l", fr.fid, n) in st.mem)
        old = {n: st.mem[("l", fr.fid, n)] for n in mod}
        if getattr(self.gen, "vectors", False):
            st = st.fork()
            for n, v in old.items():
                if isinstance(v, Agg) and v.kind == "vec":
                    old[n] = IVec.of(v, st)
        grown = set()
        if getattr(self.gen, "grow", False):
            st = st.fork()
            for n, v in old.items():
                if isinstance(v, Agg) and v.kind == "vec" and all(isinstance(e, Fl) for e in v.f):
                    old[n] = SymVec.of(v, st)
                    grown.add(n)
        st2 = st.fork()
        new = {n: SymVec(fresh("a", "A"), fresh("l", "I")) if n in grown else havoc(v) for n, v in old.items()}
        for n, v in new.items():
            st2.mem[("l", fr.fid, n)] = v

        ex.loop_fixed = [v for n, v in sorted((n, v) for n, v in st.mem.items() if n[0] == "l" and n[1] == fr.fid and n[2] in live and n[2] not in mod)]

        def cands(vals):
            if not isinstance(vals, dict):
                return None
            out = []
            for n in mod:
                out += seq_facts(old[n], vals[n])
            return [c[2] if isinstance(c, tuple) else c for c in out + self.gen(ex, st, old, vals)]
        # candidates may come in stages: (stage, the value they speak about, fact); a value that an earlier stage settles has no later ones
        n_seq = sum(len(seq_facts(old[n], new[n])) for n in mod)
        tags = [(0, None)] * n_seq + [(c[0], c[1] and id(c[1])) if isinstance(c, tuple) else (0, None) for c in self.gen(ex, st, old, new)]
        c_new = cands(new)
        c_old = cands(old)
        alive = unfalsified(ex, st, c_old)
        keep = sorted(alive[i] for i in ex.valid_set(st.pc, [c_old[i] for i in alive]))
        if getattr(self.gen, "weaken", False):
            # only plain facts about the arguments are carried into the loop; an entry covered by an
            # earlier, weaker one needs no second visit
            wk = tuple(b for b in st.pc if plain(b))
            rest = {n: v for n, v in st.mem.items() if n[0] == "l" and n[1] == fr.fid and n[2] in live and n[2] not in mod}
            for fid, h, pc2, rest2, keep2 in ex.covered:
                if fid == fr.fid and h == bb and set(pc2) <= set(wk) and set(keep2) <= set(keep) and rest.keys() == rest2.keys() and \
                        all(same(v, rest2[n]) for n, v in rest.items()):
                    return None
            ex.covered.append((fr.fid, bb, wk, rest, keep))
            st2.pc = wk
        if not any(tags[i][0] == 1 for i in keep):
            tags = [(0, k) for _, k in tags]
        rounds, stage = 0, 0
        later = [i for i in keep if tags[i][0] > stage]
        keep = [i for i in keep if tags[i][0] <= stage]
        while True:
            rounds += 1
            s = st2.fork()
            for i in keep:
                s.assume(c_new[i])
            back = ex.explore(fr, bb, s, body)
            drop = set()
            for b in back:
                vals = {}
                for n in mod:
                    v = b.mem.get(("l", fr.fid, n))
                    if isinstance(old[n], IVec):
                        v = IVec.of(v, b)
                    if isinstance(old[n], SymVec) and n not in grown and not (isinstance(v, SymVec) and v.n is old[n].n):
                        raise Unsupported("vector changes length")
                    if isinstance(v, str) or type(v) is not type(old[n]):
                        raise Unsupported("loop-carried value changes kind")
                    if isinstance(new[n], (Ref,)) and not same(v, new[n]):
                        raise Unsupported("loop-carried reference")
                    vals[n] = v
                cb = cands(vals)
                todo = [i for i in keep if i not in drop]
                ok = ex.valid_set(b.pc, [cb[i] for i in todo])
                drop |= {i for j, i in enumerate(todo) if j not in ok}
            if not drop:
                if not later:
                    break
                stage = min(tags[i][0] for i in later)
                settled = {tags[i][1] for i in keep if tags[i][1] is not None}
                known = [c_new[i] for i in keep if plain(c_new[i])]
                keep = sorted(keep + [i for i in later if tags[i][0] == stage and tags[i][1] not in settled and not idle(known, c_new[i])])
                later = [i for i in later if tags[i][0] > stage]
                continue
            keep = [i for i in keep if i not in drop]
            if rounds > 16:
                raise Unsupported("no inductive invariant")
        st2 = st2.fork()
        for i in keep:
            st2.assume(c_new[i])
        # termination: some integer measure of the roles goes down on every path
        ms = [m for m in self.measures(ex, st, old, new) if ex.valid(st2.pc, le(const(-1, "I"), m))]
        ok = None
        for k, m in enumerate(self.measures(ex, st, old, new)):
            if m in ms and all(ex.valid(b.pc, lt(self.measures(ex, st, old, {n: b.mem[("l", fr.fid, n)] for n in mod})[k], m)) for b in back):
                ok = m
                break
        ex.loop_obl.append(dict(function=f.name, candidates=len(c_new), kept=len(keep), rounds=rounds, paths=len(back),
                                variant=show(ok) if ok is not None else None))
        return st2

    def measures(self, ex, st, old, vals):
        out = []
        ints = []
        for n in sorted(vals):
            v = vals[n]
            if isinstance(v, Seq):
                out.append(sub(v.end, v.pos))
            if isinstance(v, T) and v.s == "I":
                ints.append(v)
        out += ints
        for i in range(len(ints)):
            for j in range(len(ints)):
                if i != j:
                    out.append(sub(ints[i], ints[j]))
        g = getattr(self.gen, "measures", None)
        return (g(vals) if g else []) + out

    def back(self, ex, fr, bb, st):
        pass


# ------------------------------------------------------------------ candidates
def categorical_new(ex, st, old, vals):
    import specs
    P, S, K = specs.pk, specs.sa, specs.kk
    j = var("j", "I")
    out = []
    ints = [v for _, v in sorted(vals.items()) if isinstance(v, T) and v.s == "I"]
    seqs = [v for v in vals.values() if isinstance(v, Seq)]
    heads = list(dict.fromkeys([s.pos for s in seqs] + [t for v in ints for t in (v, add(v, IONE), sub(v, IONE))]))
    tails = list(dict.fromkeys([s.end for s in seqs] + [t for v in ints for t in (v, add(v, IONE))]))
    vecs = [v.arr for _, v in sorted(vals.items()) if isinstance(v, SymVec)]
    last = sub(K, IONE)
    for a in vecs:
        out += [forall(j, IZERO, K, eq(sel(a, j), sel(S, j)))]
        for p in heads:
            out += [forall(j, IZERO, p, eq(sel(a, j), sel(S, j))), forall(j, p, K, eq(sel(a, j), sel(P, j))),
                    forall(j, IZERO, last, disj(le(p, j), eq(sel(a, j), sel(S, j)))), forall(j, p, last, eq(sel(a, j), sel(P, j)))]
    for p in heads:
        for _, r in sorted(vals.items()):
            if isinstance(r, Fl):
                out += [disj(le(p, IZERO), le(K, p), eq(r.t, sel(S, sub(p, IONE)))), disj(lt(p, IZERO), le(last, p), eq(r.t, sel(S, p)))]
    for a in vals.values():
        if isinstance(a, SymVec) and a.n is not K:
            out += [le(a.n, K)] + [eq(a.n, p) for p in heads] + [forall(j, IZERO, a.n, disj(le(last, j), eq(sel(a.arr, j), sel(S, j))))]
    for r in vals.values():
        if isinstance(r, Fl):
            out += [disj(lt(IZERO, p), eq(r.t, ZERO)) for p in heads]
    for e in tails:
        out += [disj(lt(e, IONE), lt(K, e), eq(sel(S, sub(e, IONE)), ONE))]
    for s in seqs:
        out += [le(IONE, s.pos), le(s.end, K)]
    for v in ints:
        out += [le(IZERO, v), le(IONE, v), le(v, K), le(v, last), disj(le(v, last), eq(v, IONE))]
    return out


categorical_new.grow = True


def categorical_modes(ex, st, old, vals):
    """the vector holds the maximisers seen so far, a number is their value"""
    import specs
    P, K = specs.pk, specs.kk
    j = var("j", "I")
    out = []
    reals = [v.t for _, v in sorted(vals.items()) if isinstance(v, Fl)] + [v.t for v in ex.loop_fixed if isinstance(v, Fl) and v.t.op != "c"]
    heads = [s for s in vals.values() if isinstance(s, Seq)]
    if not heads:
        heads = [Seq(None, v, K) for _, v in sorted(vals.items()) if isinstance(v, T) and v.s == "I"]
        out += [f for s in heads for f in (le(IZERO, s.pos), le(s.pos, K))]
    for s in heads:
        for v in vals.values():
            if isinstance(v, IVec):
                out += [forall(j, s.pos, K, eq(sel(v.arr, j), ZERO)), lt(v.last, s.pos), le(const(-1, "I"), v.last)]
                for r in reals:
                    out += [forall(j, IZERO, s.pos, disj(eq(sel(P, j), r), eq(sel(v.arr, j), ZERO))),
                            forall(j, IZERO, s.pos, disj(ne(sel(P, j), r), eq(sel(v.arr, j), ONE))),
                            disj(eq(r, ZERO), conj(le(IZERO, v.last), eq(sel(P, v.last), r)))]
        for r in reals:
            # nothing seen exceeds it, and it was seen
            out += [forall(j, IZERO, s.pos, le(sel(P, j), r)), le(ZERO, r), disj(eq(r, ZERO), neg_b(forall(j, IZERO, s.pos, ne(sel(P, j), r)))),
                    neg_b(forall(j, IZERO, s.pos, ne(sel(P, j), r)))]
    return out


categorical_modes.vectors = True


def categorical_median(ex, st, old, vals):
    import specs
    S = specs.sa
    j = var("j", "I")
    h = const(Q(1, 2))
    out = [forall(j, IZERO, s.pos, lt(sel(S, j), h)) for s in vals.values() if isinstance(s, Seq)]
    for _, v in sorted(vals.items()):
        if isinstance(v, T) and v.s == "I":
            out += [le(IZERO, v), lt(v, specs.kk), forall(j, IZERO, v, lt(sel(S, j), h))]
    return out


def bin_terms(F):
    """mass and CDF of a binomial at an integer term, as spec terms"""
    import specs
    n = i2r(specs.n_)
    M = lambda k: fn("exp", F.lnm(i2r(k)))
    Fk = lambda k: fn("incb", F.q, sub(n, i2r(k)), add(i2r(k), ONE))
    return M, Fk


def binomial_inverse(ex, st, old, vals):
    import specs
    F = ex.loopF
    n, P = specs.n_, specs.p_
    M, Fk = bin_terms(F)
    ints = [(x, v) for x, v in sorted(vals.items()) if isinstance(v, T) and v.s == "I"]
    ints += [(x, v.pos) for x, v in sorted(vals.items()) if isinstance(v, Seq) and isinstance(v.pos, T)]
    reals = [v for x, v in sorted(vals.items()) if isinstance(v, Fl)]
    out = []
    n1 = add(n, IONE)
    for _, k in ints:
        out += [le(IZERO, k), le(IONE, k), le(k, n), le(k, n1)]
    for a, k in ints:
        for b, l in ints:
            if a != b:
                out += [le(k, l), lt(k, l), disj(lt(k, l), eq(k, n), *[eq(m, l) for c, m in ints if c not in (a, b)])]
                out += [disj(le(l, k), eq(m, l)) for c, m in ints if c not in (a, b)]
    for _, k in ints:
        k1, k2 = sub(k, IONE), sub(k, const(2, "I"))
        t = add(sub(n, k), IONE)
        # outcomes already known to be below / to reach the probability
        out += [(2, None, f) for f in (disj(le(k, IZERO), conj(le(k1, sub(n, IONE)), lt(Fk(k1), P))),
                                       disj(le(k, IONE), conj(le(k2, sub(n, IONE)), lt(Fk(k2), P))),
                                       disj(le(n, k), le(P, Fk(k))), disj(le(n, t), le(P, Fk(t))), disj(le(k, IZERO), le(P, Fk(sub(n, k)))))]
        # a number is a mass, or a partial sum: F(e), or what is left of it, with or without the probability
        for r in reals:
            x = r.t
            out += [(0, r, f) for f in (eq(x, M(k1)), disj(lt(n, k), eq(x, M(k))), eq(x, M(t)), eq(x, M(sub(n, k))))]
            for e, ends in ((k1, (0, 1)), (k, (1,)), (sub(sub(n, k), IONE), (0,)), (sub(n, k), (0, 1))):
                for shape in (lambda F: F, lambda F: sub(F, P), lambda F: sub(P, F), lambda F: sub(ONE, F)):
                    out.append((1, r, disj(lt(e, IZERO), le(n, e), eq(x, shape(Fk(e))))))
                    out += [(1, r, disj(ne(e, n), eq(x, shape(ONE))) if end else disj(ne(e, const(-1, "I")), eq(x, shape(ZERO)))) for end in ends]
    ex.lemma_at = [k for _, k in ints]
    return out


def _bin_measures(vals):
    """narrowing bounds, with one step before the guess lies strictly inside"""
    ints = [v for x, v in sorted(vals.items()) if isinstance(v, T) and v.s == "I"]
    out = []
    for i, h in enumerate(ints):
        for j, l in enumerate(ints):
            for k, q in enumerate(ints):
                if len({i, j, k}) == 3:
                    out.append(add(mul(const(2, "I"), sub(h, l)), iteI(eq(q, h), IONE, IZERO)))
    import specs
    out += [sub(add(specs.n_, IONE), k) for k in ints]
    return out


def iteI(b, x, y):
    return mk("ite", b, x, y, s="I")


binomial_inverse.measures = _bin_measures
binomial_inverse.weaken = True


def binomial_lemmas(ex, pc):
    """the step of the binomial CDF, F(k) = F(k-1) + M(k), at the integers in sight (lemma bin_step, prove3)"""
    import specs
    F = getattr(ex, "loopF", None)
    if F is None or F.fam != "Binomial":
        return []
    M, Fk = bin_terms(F)
    n = specs.n_
    out = []
    for k in getattr(ex, "lemma_at", []):
        for i in (k, sub(k, IONE), sub(n, k), add(sub(n, k), IONE), sub(sub(n, k), IONE)):
            j = sub(i, IONE)
            out.append((conj(le(IONE, i), lt(i, n)), sub(Fk(i), add(Fk(j), M(i)))))
            out.append((conj(le(IONE, i), eq(i, n)), sub(ONE, add(Fk(j), M(i)))))
    return out


def install(ex, world):
    from specs import FAM
    for fam, meth, g in (("Categorical", "new", categorical_new), ("Categorical", "median", categorical_median), ("Categorical", "modes", categorical_modes),
                         ("Binomial", "inverse", binomial_inverse)):
        f = world.func(ex, FAM[fam], meth)
        if f is not None:
            ex.loops[f.name] = g


# ------------------------------------------------------------------ loops without a generator
class Auto:
    """Sums and searches written as loops.  One pass from a head with unknown loop values gives each path's step; where
    a number only ever gains a term that depends on the position alone it is the sum of these terms so far, an integer that
    gains a constant is linear in the position, and every earlier position satisfied some path's conditions (induction on
    the position: the step is the induction step, valid for all loop values)."""

    @staticmethod
    def applies(ex, fr, bb, st):
        f = fr.f
        body = loop_body(f, bb)
        live = ex.liveness(f)[bb]
        mod = sorted(n for n in modified(f, body) & live if ("l", fr.fid, n) in st.mem)
        vs = {n: st.mem[("l", fr.fid, n)] for n in mod}
        if not vs or not all(isinstance(v, Fl) or isinstance(v, T) and v.s == "I" or Auto.seq(v) for v in vs.values()):
            return None
        seqs = [n for n, v in vs.items() if isinstance(v, Seq)]
        if len(seqs) > 1 or seqs and (vs[seqs[0]].end.op == "c" and vs[seqs[0]].pos.op == "c"):
            return None
        if seqs and any(k in ("filter", "filter_map") for k, _ in vs[seqs[0]].stages):
            return None
        if not seqs and not any(isinstance(v, T) for v in vs.values()):
            return None
        return body, mod, vs, seqs

    @staticmethod
    def seq(v):
        return isinstance(v, Seq)

    def __init__(self, found):
        self.body, self.mod, self.old, self.seqs = found

    def enter(self, ex, fr, bb, st):
        from lib import delta
        old, mod = self.old, self.mod
        new = {n: havoc(v) for n, v in old.items()}
        s = st.fork()
        for n, v in new.items():
            s.mem[("l", fr.fid, n)] = v
            for c in seq_facts(old[n], v):
                s.assume(c)
        back = ex.explore(fr, bb, s, self.body)
        if not back:
            return None
        val = lambda b, n: b.mem.get(("l", fr.fid, n))
        # the position: what the passes count up, or down (its value is then one past the element)
        down = False
        if self.seqs:
            q, q0 = new[self.seqs[0]], old[self.seqs[0]]
            down = any(k == "rev" for k, _ in q.stages)
            i, i0 = (q.end, q0.end) if down else (q.pos, q0.pos)
            other = (lambda v: v.pos) if down else (lambda v: v.end)
            moving = (lambda v: v.end) if down else (lambda v: v.pos)
            steps = [isinstance(val(b, self.seqs[0]), Seq) and moving(val(b, self.seqs[0])) is (sub(i, IONE) if down else add(i, IONE)) and
                     other(val(b, self.seqs[0])) is other(q) for b in back]
        else:
            ks = [(n, d) for d in (IONE, const(-1, "I")) for n in mod
                  if isinstance(new[n], T) and all(isinstance(val(b, n), T) and val(b, n) is add(new[n], d) for b in back)]
            if not ks:
                return None
            down = ks[0][1] is not IONE
            i, i0 = new[ks[0][0]], old[ks[0][0]]
            steps = [True]
        if not all(steps):
            return None
        carried = {v.t if isinstance(v, Fl) else v for n, v in new.items() if not isinstance(v, Seq)} - {i}
        if self.seqs and not down:
            carried |= {q.end}
        n_done = sub(i0, i) if down else sub(i, i0)
        sub1 = {}
        for n, v in new.items():        # integers first
            if isinstance(v, T) and v is not i:
                d = {sub(val(b, n), v) for b in back}
                d = d.pop() if len(d) == 1 else None
                if d is None or d.op != "c":
                    return None
                sub1[v] = add(old[n], mul(d, n_done))
        if self.seqs and not down:
            sub1[q.end] = q0.end
        j = fresh("s", "I")
        # the loop value that stood for position j, and the positions passed
        head = (lambda j: add(j, IONE)) if down else (lambda j: j)
        lo, hi = (i, i0) if down else (i0, i)
        conds = [subst(delta(s.pc, b.pc), sub1) for b in back]
        if self.seqs:                   # positions inside the sequence: nothing new
            guard = lt(q.pos, i) if down else lt(i, sub1[q.end])
            conds = [conj(*[g for g in (c.a if c.op == "and" else (c,)) if g is not guard]) for c in conds]
        if any(free(c) & (carried - set(sub1)) for c in conds):
            return None
        closed = {}
        for n, v in new.items():
            if not isinstance(v, Fl):
                continue
            body = ZERO
            for b, c in zip(back, conds):
                w = val(b, n)
                if not isinstance(w, Fl):
                    return None
                d = subst(sub(w.t, v.t), sub1)
                if free(d) & (carried - set(sub1)):
                    return None
                body = add(body, d if len(back) == 1 else ite(c, d, ZERO))
            closed[n] = Fl(add(old[n].t, sum_(j, lo, hi, subst(body, {i: head(j)}))), ("sum", old[n].raw, ()))
        st2 = st.fork()
        for n, v in new.items():
            w = closed.get(n) or ((v if down else Seq(v.base, v.pos, sub1[v.end], v.stages)) if isinstance(v, Seq) else sub1.get(v, v))
            st2.mem[("l", fr.fid, n)] = w
        below = lambda a, b, a0, b0: le(a, b) if ex.valid(st.pc, le(a0, b0)) else disj(le(a, b), eq(i, i0))
        if self.seqs:
            st2.assume(below(q.pos, i, q.pos, i0) if down else below(i, sub1[q.end], i0, q0.end))
        st2.assume(le(lo, hi))
        # what some path asked of every earlier position
        k = fresh("j", "I")
        was = subst(disj(*conds), {i: head(k)})
        if was is not TRUE:
            st2.assume(forall(k, lo, hi, was))
        m = None
        if self.seqs:
            m = sub(i, q.pos) if down else sub(sub1[q.end], i)
        else:
            # the test that guards every path back gives the bound of the counter
            every = [g for g in (conds[0].a if conds[0].op == "and" else (conds[0],)) if all(g in (d.a if d.op == "and" else (d,)) for d in conds)]
            for g in every:
                x, y = (g.a[1], g.a[0]) if down and g.op == "lt" else g.a if g.op == "lt" else (None, None)
                if x is i and x.s == "I" and i not in free(y):
                    m = sub(i, y) if down else sub(y, i)
                    st2.assume(below(y, i, y, i0) if down else below(i, y, i0, y))
        ex.loop_obl.append(dict(function=fr.f.name, candidates=len(closed) + 1, kept=len(closed) + 1, rounds=1, paths=len(back),
                                variant=show(m) if m is not None else None))
        return st2

    def back(self, ex, fr, bb, st):
        pass
