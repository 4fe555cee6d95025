"""Objects, contracts and path extraction: ties the contracts of specs.py to the
functions of the crate."""
import re, time
import mirp, symex, smt, specs
from symex import *
from specs import FAM
from term import *

TRAIT = {"density": "Continuous", "mass": "Discrete", "distribution": "Distribution", "inverse": "Inverse", "mean": "Mean",
         "median": "Median", "modes": "Modes", "variance": "Variance", "deviation": "Variance", "skewness": "Skewness",
         "kurtosis": "Kurtosis", "entropy": "Entropy", "sample": "Sample"}
DEFAULT = {"deviation"}
X, P_, K_ = specs.x_, specs.p_, specs.k_


def mod_of(F):
    return "distribution::%s::%s" % (F.fam.lower(), F.fam)


class World:
    def __init__(self, text=None, repo=mirp.REPO, timeout=1500):
        self.text = text if text is not None else mirp.dump()
        self.m = mirp.Module(self.text)
        self.impls, self.heads = impl_table(self.m, repo)
        self.timeout = timeout
        self.t_end = None
        self.objs = {}
        self.errors = {}

    def exec(self, contracts=True, **kw):
        ex = Exec(self.m, self.impls, timeout=self.timeout, **kw)
        if self.t_end is not None:
            ex.deadline = min(time.time() + 150, self.t_end)
        ex.world = self
        if contracts:
            ex.contracts = self.contracts(ex)
        return ex

    # ---------------------------------------------------------- functions of the crate
    def func(self, ex, F, meth):
        if meth == "new":
            if F.ctor == "default":
                return ex.find("<%s as core::default::Default>::default" % mod_of(F))
            return ex.find("%s::%s" % (mod_of(F), F.ctor))
        if meth in F.acc or meth in ("p",) and F.fam == "Categorical":
            return ex.find("%s::%s" % (mod_of(F), meth))
        return ex.find("<%s as distribution::%s>::%s" % (mod_of(F), TRAIT[meth], meth))

    def args(self, F):
        if F.fam == "Categorical":
            return [SymVec(specs.pk, specs.kk)]
        return [p if p.s == "I" else Fl(p) for p in F.params]

    def pre(self, F):
        if F.fam == "Categorical":
            j = specs.j_
            P = specs.pk
            S, K = specs.sa, specs.kk
            # S is defined by the first two lines; the last two are the lemmas categorical_sums (prove.py)
            return [lt(IZERO, K), lt(K, const(2 ** 62, "I")), forall(j, IZERO, K, conj(le(ZERO, sel(P, j)), le(sel(P, j), ONE))),
                    eq(sum_(j, IZERO, K, sel(P, j)), ONE),
                    eq(sel(S, IZERO), sel(P, IZERO)), forall(j, IONE, K, eq(sel(S, j), add(sel(S, sub(j, IONE)), sel(P, j)))),
                    eq(sel(S, sub(K, IONE)), ONE), forall(j, IZERO, K, conj(le(ZERO, sel(S, j)), le(sel(S, j), ONE)))]
        r = list(F.pre)
        for p in F.params:
            if p.s == "I":
                r.append(lt(p, const(2 ** 31, "I")))     # stated bound: trials fit the i32 exponent
        return r

    # ---------------------------------------------------------- objects
    def obj(self, F):
        """(path condition facts, memory, self value): the type invariant, from the constructor's body"""
        if F.name in self.objs:
            return self.objs[F.name]
        ex = self.exec()
        ex.contracts.pop(self.func(ex, F, "new").name, None)
        st = St(pc=self.pre(F))
        a = self.args(F)
        if F.fam == "Categorical":
            a = [ex.heap(st, a[0])]
            import loops
            loops.install(ex, self)
        outs = ex.run(self.func(ex, F, "new"), a, st)
        rets = [o for o in outs if o.kind == "ret"]
        if F.fam == "Categorical":
            self.objs[F.name] = self.categorical_obj(F, ex, rets) + (ex, outs)
            return self.objs[F.name]
        if len(rets) != 1:
            raise Unsupported("constructor of %s has %d normal paths" % (F.name, len(rets)))
        o = rets[0]
        v = o.val
        v = Agg(v.kind, v.name, v.variant, v.f, origin=(F.name, {}))
        self.objs[F.name] = (o.st, v, ex, outs)
        return self.objs[F.name]

    def categorical_obj(self, F, ex, rets):
        """an arbitrary object satisfying the type invariant: the probabilities are P, the partial sums S.
        self.inv lists, for every way the constructor returns, what has to hold for the invariant."""
        if not rets or any(len(o.val.f) != len(rets[0].val.f) for o in rets):
            raise Unsupported("constructor of Categorical")
        st = St(pc=self.pre(F))
        fs, self.inv = [], []
        j = specs.j_
        n = 0
        for i, v in enumerate(rets[0].val.f):
            if isinstance(v, SymVec):
                if all(self._is(ex, o, o.val.f[i], specs.pk) for o in rets):
                    fs.append(SymVec(specs.pk, specs.kk))
                    src = specs.pk
                else:
                    c = fresh("c", "A")
                    fs.append(SymVec(c, specs.kk))
                    st.assume(forall(j, IZERO, specs.kk, eq(sel(c, j), sel(specs.sa, j))))
                    st.assume(eq(sel(c, IZERO), sel(specs.sa, IZERO)))
                    src = specs.sa
                for o in rets:
                    w = o.val.f[i]
                    self.inv.append(("field %d, length" % i, o.st.pc, eq(w.n, specs.kk)))
                    self.inv.append(("field %d, elements" % i, o.st.pc, forall(j, IZERO, specs.kk, eq(sel(w.arr, j), sel(src, j)))))
            elif isinstance(v, T) and v.s == "I":
                fs.append(specs.kk)
                for o in rets:
                    self.inv.append(("field %d, number of outcomes" % i, o.st.pc, eq(o.val.f[i], specs.kk)))
            else:
                raise Unsupported("field of Categorical")
        v = rets[0].val
        return st, Agg(v.kind, v.name, v.variant, fs, origin=(F.name, {}))

    def _is(self, ex, o, w, arr):
        if not isinstance(w, SymVec):
            return False
        return w.arr is arr or ex.valid(o.st.pc, forall(specs.j_, IZERO, specs.kk, eq(sel(w.arr, specs.j_), sel(arr, specs.j_))))

    # ---------------------------------------------------------- contracts at call sites
    def contracts(self, ex):
        C = {}
        byfam = {}
        for F in FAM.values():
            byfam.setdefault(F.fam, []).append(F)
            f = self.func(ex, F, "new")
            if f is not None:
                C.setdefault(f.name, self.ctor_contract(F, f))
        for fam, Fs in byfam.items():
            F0 = Fs[0]
            for meth in list(F0.m) + ["modes"]:
                if meth == "modes" and F0.modes is None:
                    continue
                f = self.func(ex, F0, meth)
                if f is not None and f.blocks:
                    C[f.name] = self.method_contract(meth, f)
            for meth in F0.acc:
                f = self.func(ex, F0, meth)
                if f is not None and f.blocks:
                    C[f.name] = self.accessor_contract(meth, f)
            if fam in ("Binomial", "Categorical"):
                f = self.func(ex, F0, "inverse")
                if f is not None:
                    C[f.name] = self.dinverse_contract(f)
        for name, c in (("distribution::gaussian::inverse", phiinv_contract), ("distribution::gaussian::sample", gauss_contract),
                        ("distribution::gamma::sample", gamma_contract), ("distribution::gamma::sample_ln", gamma_ln_contract),
                        ("distribution::binomial::stirlerr", stirlerr_contract), ("distribution::binomial::ln_d0", ln_d0_contract)):
            if name in self.m.funcs:
                C[name] = c
        return C

    def ctor_contract(self, F, f):
        def c(ex, st, head, vals):
            if F.fam in ("Categorical",) or not all(isinstance(v, (Fl, T)) for v in vals):
                return None
            outs = ex.run(f, vals, st, inline=True)
            env = {p: (v.t if isinstance(v, Fl) else v) for p, v in zip(F.params, vals)}
            for o in outs:
                if o.kind == "ret" and isinstance(o.val, Agg):
                    v = o.val
                    o.val = Agg(v.kind, v.name, v.variant, v.f, origin=(F.name, env))
            return outs
        return c

    def self_of(self, ex, st, v):
        n = 0
        while isinstance(v, Ref) and n < 10:
            v = ex.load(st, v.root, v.path)
            n += 1
        if isinstance(v, Agg) and v.origin:
            return FAM[v.origin[0]], v.origin[1]
        return None, None

    def accessor_contract(self, meth, f):
        def c(ex, st, head, vals):
            F, env = self.self_of(ex, st, vals[0])
            if F is None or meth not in F.acc:
                return None
            t = subst(F.acc[meth], env)
            if f.ret.strip() == "usize":
                u = unreal(t)
                return None if u is None else [Out("ret", st, u)]
            return [Out("ret", st, Fl(t))]
        return c

    def method_contract(self, meth, f):
        def c(ex, st, head, vals):
            F, env = self.self_of(ex, st, vals[0])
            if F is None:
                return None
            env = dict(env)
            if meth == "modes":
                return self.modes_outs(ex, st, F, env, f)
            if meth not in F.m:
                return None
            if len(vals) > 1:
                a = vals[1]
                if isinstance(a, str):
                    if meth == "distribution" and a != NAN:
                        return [Out("ret", st, Fl(ONE if a == PINF else ZERO))]
                    return None
                v = {"mass": K_, "inverse": P_}.get(meth, X)
                env[v] = a.t if isinstance(a, Fl) else a
                if meth == "inverse":
                    ex.checks.append(("quantile argument in [0, 1]", st.pc, conj(le(ZERO, env[v]), le(env[v], ONE))))
            isint = f.ret.strip() in ("u8", "usize")
            outs, cur = [], st
            for g, v in F.m[meth]:
                if v == specs.ANY:
                    return None
                nxt = None
                for s, t in ex.split(cur, subst(g, env)):
                    if t:
                        if isinstance(v, str):
                            w = v
                        else:
                            w = subst(v, env)
                            w = unreal(w) if isint else Fl(w)
                            if w is None:
                                return None
                        outs.append(Out("ret", s, w))
                    else:
                        nxt = s
                cur = nxt
                if cur is None:
                    break
            return outs if cur is None else None
        return c

    def modes_outs(self, ex, st, F, env, f):
        isint = "u8" in f.ret or "usize" in f.ret
        outs, cur = [], st
        for g, vs in F.modes:
            nxt = None
            for s, t in ex.split(cur, subst(g, env)):
                if t:
                    el = []
                    for v in vs:
                        w = subst(v, env)
                        if isint:
                            k = fresh("mode", "I")
                            s = s.fork(eq(i2r(k), w))
                            el.append(k)
                        else:
                            el.append(Fl(w))
                    outs.append(Out("ret", s, Agg("vec", None, None, el)))
                else:
                    nxt = s
            cur = nxt
            if cur is None:
                break
        return outs

    def dinverse_contract(self, f):
        def c(ex, st, head, vals):
            F, env = self.self_of(ex, st, vals[0])
            if F is None or not isinstance(vals[1], Fl):
                return None
            p = vals[1].t
            ex.checks.append(("quantile argument in [0, 1]", st.pc, conj(le(ZERO, p), le(p, ONE))))
            if F.fam == "Bernoulli":
                return None
            r = fresh("q", "I")
            st = st.fork()
            top = subst(specs.n_ if F.fam == "Binomial" else sub(specs.kk, IONE), env)
            st.assume(conj(le(IZERO, r), le(r, top)))
            for b in dinverse_post(F, p, r):
                st.assume(subst(b, env))
            st.events += (("inverse", (F.name, env, p), r),)
            return [Out("ret", st, r)]
        return c


def dinverse_post(F, p, r):
    """the contract of discrete quantiles (C05) for 0 < p < 1, as facts about the outcome r"""
    inside = lambda b: disj(le(p, ZERO), le(ONE, p), b)
    if F.fam == "Categorical":
        S, P = specs.sa, specs.pk
        return [inside(le(p, sel(S, r))), inside(disj(le(r, IZERO), lt(sel(S, sub(r, IONE)), p))), inside(lt(ZERO, sel(P, r)))]
    n = i2r(specs.n_)
    Fk = lambda k: fn("incb", F.q, sub(n, i2r(k)), add(i2r(k), ONE))
    r1, b1 = add(r, IONE), sub(r, IONE)
    return [inside(disj(early(F), le(specs.n_, r), le(p, Fk(r)))), inside(disj(le(r, IZERO), lt(Fk(b1), p))),
            inside(disj(le(specs.n_, r1), le(p, Fk(r1))))]


def early(F):
    """where the search for a binomial quantile may stop one outcome early: many trials, small variance"""
    p = specs.P if F.q is not specs.QQ else sub(ONE, specs.QQ)
    return conj(le(const(1000, "I"), specs.n_), le(mul(i2r(specs.n_), p, sub(ONE, p)), const(80)))


# ------------------------------------------------------------------ free functions
def phiinv_contract(ex, st, head, vals):
    p = vals[0]
    if isinstance(p, str):
        return None
    ex.checks.append(("quantile argument in [0, 1]", st.pc, conj(le(ZERO, p.t), le(p.t, ONE))))
    out = []
    for s, z in ex.split(st, eq(p.t, ZERO)):
        if z:
            out.append(Out("ret", s, NINF))
            continue
        for s2, o in ex.split(s, eq(p.t, ONE)):
            out.append(Out("ret", s2, PINF if o else Fl(fn("phiinv", p.t), ("phiinv", p.raw))))
    return out


def gauss_contract(ex, st, head, vals):
    st = st.fork()
    z = fresh("z")
    st.draws += (("gauss", z),)
    return [Out("ret", st, Fl(z, ("leaf", z)))]


def gamma_contract(ex, st, head, vals):
    k = vals[0]
    if not isinstance(k, Fl):
        return None
    ex.checks.append(("gamma sampler: positive shape", st.pc, lt(ZERO, k.t)))
    st = st.fork()
    g = fresh("g")
    st.draws += (("gamma", g, k.t),)
    st.assume(lt(ZERO, g))
    return [Out("ret", st, Fl(g, ("leaf", g)))]


def gamma_ln_contract(ex, st, head, vals):
    k = vals[0]
    if not isinstance(k, Fl):
        return None
    ex.checks.append(("gamma sampler: positive shape", st.pc, lt(ZERO, k.t)))
    st = st.fork()
    g = fresh("g")
    st.draws += (("gamma", g, k.t),)
    st.assume(lt(ZERO, g))
    return [Out("ret", st, Fl(fn("ln", g), ("leaf", fn("ln", g))))]


def stirlerr_spec(n):
    """ln(n!) - ln(sqrt(2 pi n) (n/e)^n)"""
    return add(fn("lgam", add(n, ONE)), neg(mul(const(Q(1, 2)), fn("ln", mul(const(2), PI, n)))), neg(mul(n, fn("ln", n))), n)


def stirlerr_contract(ex, st, head, vals):
    n = vals[0]
    if not isinstance(n, Fl):
        return None
    ex.checks.append(("stirlerr: positive argument", st.pc, lt(ZERO, n.t)))
    return [Out("ret", st, Fl(stirlerr_spec(n.t), ("stirlerr", n.raw)))]


def ln_d0_spec(x, np):
    return sub(add(mul(x, fn("ln", div(x, np))), np), x)


def ln_d0_contract(ex, st, head, vals):
    x, np = vals
    if not (isinstance(x, Fl) and isinstance(np, Fl)):
        return None
    ex.checks.append(("ln_d0: positive arguments", st.pc, conj(lt(ZERO, x.t), lt(ZERO, np.t))))
    return [Out("ret", st, Fl(ln_d0_spec(x.t, np.t), ("ln_d0", x.raw, np.raw)))]
