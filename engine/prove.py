"""The deductive part of a check: every property is a set of obligations over the
contracts of the functions it depends on.  Each obligation is generated from the MIR of
/repo's current source and is proved (Canon normal form, z3, cvc5), refuted on the real
crate, or left open to the bounded stand-in."""
import time, math, random, zlib
from fractions import Fraction as Q
import mpmath as mp
from mpmath import mpf
import world, symex, smt, specs, canon, oracle, gen, loops, prove2
from canon import Canon
from specs import FAM
from symex import *
from term import *

X, P_, K_ = specs.x_, specs.p_, specs.k_


class Ob:
    __slots__ = ("name", "status", "by", "secs", "F", "meth", "pc", "note", "terms")

    def __init__(self, name, status, by, secs=0., F=None, meth=None, pc=(), note="", terms=None):
        self.name, self.status, self.by, self.secs, self.F, self.meth, self.pc, self.note = name, status, by, secs, F, meth, pc, note
        self.terms = terms


# parts of contracts that no proof is attempted for: the code is an approximation there by design, and the run-time
# evaluation of the same contract (with its stated tolerance) on the compiled crate stands in.  (families, method, where)
def _bounded():
    out = [(("Beta",), "median", FAM["Beta"].median_tol[0], "the closed form for shapes above one is an approximation by design")]
    for nm, p, q in (("Binomial", specs.P, sub(ONE, specs.P)), ("Binomial.with_failure", sub(ONE, specs.QQ), specs.QQ)):
        npq = mul(i2r(specs.n_), p, q)
        out += [((nm,), "entropy", conj(lt(const(10000, "I"), specs.n_), lt(const(80), npq)), "normal approximation of the entropy")]
    return out


BOUNDED = _bounded()


def show_val(v):
    return show(v.t) if isinstance(v, Fl) else show(v) if isinstance(v, T) else repr(v)


class Prover:
    def __init__(self, pid, srv, seed, tier, rep):
        self.pid, self.srv, self.tier, self.rep = pid, srv, tier, rep
        self.r = random.Random((seed << 16) ^ zlib.crc32(pid.encode()) ^ 77)
        self.W = world.World()
        self.W.t_end = time.time() + (330 if tier == "quick" else 550)
        self.obs = []
        self.functions = set()
        self.libs, self.used = set(), set()
        self.cases_hit, self.cases_all = set(), set()
        self.paths = self.witnessed = 0
        self.done, self.envs = {}, {}
        self.loops = []
        self.trusted = set()
        self.budget = 2500 if tier == "quick" else 8000

    # ---------------------------------------------------------- deciding
    def prove_eq(self, pc, code, spec):
        if time.time() > self.W.t_end:
            return "open", "time budget"
        if any(b is FALSE for b in pc) or smt.check(pc, 600) == "unsat":
            return "proved", "z3 (path infeasible)"
        if code is spec:
            return "proved", "syntactic"
        for pc2, tag in ((pc, "canon"), (None, "canon+forced integers")):
            if pc2 is None:
                pc2 = self.forced(pc)
                if pc2 is None:
                    break
            try:
                if Canon(pc2).equal(code, spec):
                    return "proved", tag
            except (canon.CanonError, RecursionError, ZeroDivisionError):
                pass
        if smt.check(list(pc) + [ne(code, spec)], self.budget) == "unsat":
            return "proved", "z3"
        if smt.cvc5_check(list(pc) + [ne(code, spec)], 4) == "unsat":
            return "proved", "cvc5"
        return "open", ""

    def forced(self, pc):
        """integer terms that the path condition pins to one value"""
        ints = set()

        def walk(t):
            if not isinstance(t, T):
                return
            if t.s == "I" and t.op in ("v", "r2i"):
                ints.add(t)
            for u in t.a:
                walk(u)
        for b in pc:
            walk(b)
        out = list(pc)
        for t in sorted(ints, key=lambda t: t.id):
            if str(t.a[0]).startswith("@"):
                continue
            for v in (0, 1):
                if smt.check(list(out) + [ne(t, const(v, "I"))], 600) == "unsat":
                    out.append(eq(t, const(v, "I")))
                    break
        return out if len(out) > len(pc) else None

    def infeasible(self, pc):
        """no state satisfies the path condition: the solver, then the solver with equal integers
        merged, then the normal form applied to each inequality in turn"""
        pc = list(pc)
        if any(b is FALSE for b in pc) or smt.check(pc, self.budget) == "unsat":
            return "z3"
        ints, pairs = [], {}

        def walk(t):
            if isinstance(t, T):
                if t.s == "I" and t.op == "v" and not str(t.a[0]).startswith("@") and t not in ints:
                    ints.append(t)
                for u in t.a:
                    walk(u)
        for b in pc:
            walk(b)
        ints = [t for t in ints if any(b.op in ("lt", "le", "eq", "ne") and b.a[0].s == "I" for b in pc)]
        for i, a in enumerate(ints):
            for b in ints[:i]:
                if b not in pairs and smt.check(pc + [ne(a, b)], 600) == "unsat":
                    pairs[a] = b
                    break
        if pairs:
            pc = [subst(b, pairs) for b in pc]
        pc = self.forced(pc) or pc
        if any(b is FALSE for b in pc) or smt.check(pc, self.budget) == "unsat":
            return "z3+merged integers"
        for g in pc:
            if g.op in ("lt", "le", "eq") and isinstance(g.a[0], T) and g.a[0].s == "R":
                rest = [b for b in pc if b is not g]
                r = self.prove(rest, neg_b(g))
                if r[0] == "proved":
                    return r[1]
        return None

    def trust(self, text):
        """a theorem used without proof: listed among the assumptions of the evidence"""
        self.trusted.add(text)

    def dead(self, pc):
        by = self.infeasible(pc)
        return ("proved", by) if by else ("open", "")

    def prove(self, pc, goal):
        if goal is TRUE:
            return "proved", "syntactic"
        if any(b is FALSE for b in pc):
            return "proved", "syntactic"
        if time.time() > self.W.t_end:
            return "open", "time budget"
        gs = goal.a if goal.op == "and" else (goal,)
        by = set()
        for g in gs:
            if g in pc:
                by.add("syntactic")
                continue
            if smt.check(list(pc) + [neg_b(g)], self.budget) == "unsat":
                by.add("z3")
                continue
            if g.op == "eq" and g.a[0].s == "R":
                try:
                    if Canon(pc).equal(*g.a):
                        by.add("canon")
                        continue
                except (canon.CanonError, RecursionError, ZeroDivisionError):
                    pass
            if g.op in ("lt", "le") and g.a[0].s == "R":
                c = self.canon_ineq(pc, g)
                if c:
                    by.add("canon+z3")
                    continue
            if smt.cvc5_check(list(pc) + [neg_b(g)], 4) == "unsat":
                by.add("cvc5")
                continue
            return "open", ""
        return "proved", "+".join(sorted(by))

    def canon_ineq(self, pc, g):
        """sign of the normalised difference"""
        try:
            c = Canon(pc)
            d = c.conv(sub(g.a[1], g.a[0]))
            if g.op == "le" and not d:
                return True
            t = c.term(d)
        except (canon.CanonError, RecursionError, ZeroDivisionError):
            return False
        s = c.sign(t)
        return s == "+" or g.op == "le" and s == "0+"

    def ob(self, name, res, F=None, meth=None, pc=(), note="", t0=None):
        o = Ob(name, res[0], res[1], 0. if t0 is None else time.time() - t0, F, meth, pc, note)
        self.obs.append(o)
        return o

    def eq(self, name, pc, a, b, F=None, meth=None):
        t0 = time.time()
        o = self.ob(name, self.prove_eq(pc, a, b), F, meth, pc, "%s = %s" % (show(a)[:200], show(b)[:200]), t0)
        o.terms = ("eq", a, b)
        return o

    def goal(self, name, pc, g, F=None, meth=None):
        t0 = time.time()
        o = self.ob(name, self.prove(pc, g), F, meth, pc, show(g)[:300], t0)
        o.terms = ("goal", g)
        return o

    # ---------------------------------------------------------- open obligations
    def bounded(self, o):
        """the reason when the obligation lies where the contract is only evaluated, not proved"""
        if o.F is None:
            return None
        for fams, meth, g, why in BOUNDED:
            if o.F.name in fams and o.meth == meth and smt.check(list(o.pc) + [neg_b(g)], 3000) == "unsat":
                return why
        return None

    DRAW = {"u": lambda r: mpf(r.uniform(.001, .999)), "z": lambda r: mpf(r.gauss(0, 1.3)), "g": lambda r: mpf(math.exp(r.gauss(0, 1.2))),
            "w": lambda r: r.getrandbits(64)}

    def refute(self, o, tries=400):
        """an assignment of the parameters, the argument and the draws that satisfies the path condition and on which
        the obligation is false, evaluated with 40 digits"""
        if o.terms is None:
            return None
        fv = set()
        for b in list(o.pc) + list(o.terms[1:]):
            fv |= free(b)
        given = set(o.F.params) | {X, P_, K_, specs.pk, specs.kk, specs.sa} if o.F is not None else {prove2.kk, prove2.nn, prove2.xx, P_}
        for v in fv - given:
            nm = str(v.a[0])
            if "#" not in nm or nm.split("#")[0] not in self.DRAW or not nm.split("#")[1].isdigit():
                return None
        r = self.r
        pool = self.pool(o.F, o.meth) if o.F is not None else [None]
        t0 = time.time()
        for i in range(tries):
            if time.time() - t0 > 4:
                return None
            if o.F is not None:
                ps, a = pool[i % len(pool)]
                env = dict(self.env(o.F, o.meth, ps, a))
            else:
                ps = a = None
                env = {prove2.kk: mpf(math.exp(r.gauss(.5, 1.2))), prove2.nn: mpf(r.choice([1, 2, 3, 5, 11, 17, 40, 300, 700])),
                       prove2.xx: mpf(math.exp(r.gauss(2, 1.5))), P_: mpf(r.random())}
            for v in fv - given:
                env[v] = self.DRAW[str(v.a[0]).split("#")[0]](r)
            if any(v not in env for v in fv):
                continue
            if self.holds(o.pc, env) is not True:
                continue
            try:
                memo = {}
                bad = self.false(o.terms, env, memo)
            except Exception:   # noqa
                continue
            if bad:
                return {show(v): str(mp.nstr(env[v], 17)) if not isinstance(env[v], (int, list)) else str(env[v])[:200] for v in fv if v in env}, bad
        return None

    def false(self, terms, env, memo):
        if terms[0] == "eq":
            a, b = (evalmp(t, env, memo) for t in terms[1:])
            if abs(a - b) > mpf("1e-9") * max(abs(a), abs(b)) and max(abs(a), abs(b)) > mpf("1e-280"):
                return "%s against %s" % (mp.nstr(a, 17), mp.nstr(b, 17))
            return None
        for g in (terms[1].a if terms[1].op == "and" else (terms[1],)):
            if g.op in ("lt", "le"):
                a, b = (mpf(evalmp(t, env, memo)) for t in g.a)
                if a - b > mpf("1e-9") * (abs(a) + abs(b)) and abs(a - b) > mpf("1e-280"):
                    return "%s is false: %s, %s" % (show(g)[:200], mp.nstr(a, 17), mp.nstr(b, 17))
            elif g.op == "eq" and g.a[0].s != "B" or g.op == "false":
                if g.op == "false":
                    return None
                bad = self.false(("eq",) + tuple(g.a), env, memo)
                if bad:
                    return bad
        return None

    def lost(self, name, e, F=None, meth=None):
        return self.ob(name, ("open", "unsupported"), F, meth, (), "%s: %s" % (type(e).__name__, str(e)[:200]))

    # ---------------------------------------------------------- running the code
    def run_method(self, F, meth, arg=None, contracts=True):
        """outcomes of the method's body on an object satisfying the type invariant"""
        st, v, ex0, _ = self.W.obj(F)
        ex = self.W.exec(contracts)
        loops.install(ex, self.W)
        ex.loopF = F
        f = self.W.func(ex, F, meth)
        if f is None or f.blocks is None:
            raise Unsupported("function %s of %s not found" % (meth, F.name))
        ex.contracts.pop(f.name, None)
        s = st.fork()
        r = ex.heap(s, v)
        a = [r]
        if meth in ("density", "distribution"):
            a.append(Fl(X) if arg in (None, "fin") else arg)
        if meth == "mass":
            a.append(K_)
            s.assume(conj(le(IZERO, K_), lt(K_, const(symex.U64, "I"))))
            if F.fam == "Bernoulli":
                s.assume(lt(K_, const(256, "I")))
            if F.fam == "Categorical":
                s.assume(lt(K_, specs.kk))
        if meth == "inverse":
            a.append(Fl(P_))
            s.assume(conj(le(ZERO, P_), le(P_, ONE)))
        for b in F.mpre.get(meth, ()):
            s.assume(b)
        if meth == "deviation" and f.name.startswith("distribution::Variance"):
            ex.self_variance = lambda ex, st, head, vals: self.W.method_contract("variance", self.W.func(ex, F, "variance"))(ex, st, head, vals)
        outs = ex.run(f, a, s)
        self.functions.add(f.name)
        self.functions.update(n for n in ex.entered)
        self.libs |= ex.used_lib
        self.used |= ex.used_contracts
        self.loops += [l for l in ex.loop_obl if l not in self.loops]
        return ex, outs, s

    # ---------------------------------------------------------- contracts
    def contract(self, F, meth, values=True):
        """obligations of one method: postcondition on every path, no panic, no NaN, callee preconditions"""
        key = (F.name, meth)
        if key in self.done:
            return self.done[key]
        first = len(self.obs)
        for arg in (("fin", PINF, NINF) if meth in ("density", "distribution") else ("fin",)):
            base = "%s::%s%s" % (F.name, meth, "" if arg == "fin" else "(%s)" % arg)
            try:
                self.contract1(F, meth, arg, base)
            except Unsupported as e:
                self.lost(base, e, F, meth)
        self.done[key] = self.obs[first:]
        return self.done[key]

    def contract1(self, F, meth, arg, base):
        ex, outs, s0 = self.run_method(F, meth, arg)
        if arg == "fin":
            cs = F.m[meth] if meth != "modes" else F.modes
        else:
            cs = [(TRUE, ZERO if meth == "density" or arg == NINF else ONE)]
        n = 0
        for i, o in enumerate(outs):
            name = "%s/path%d" % (base, i)
            pc = list(o.st.pc)
            if o.kind == "panic":
                if smt.check(pc, 600) == "unsat":
                    self.ob(name + "/unreachable panic", ("proved", "z3"), F, meth, pc)
                else:
                    self.ob(name + "/panics", ("open", ""), F, meth, pc, str(o.val))
                continue
            if o.kind in ("cut",):
                continue
            if o.kind == "retry":
                continue
            self.paths += 1
            for j, (g, val) in enumerate(cs):
                cur = pc + [g] if g is not TRUE else pc
                if ex.sat(cur, TRUE):
                    n += 1
                    self.value(ex, F, meth, "%s/case%d" % (name, j), cur, o, val)
                    self.cases_hit.add((base, j))
                pc = pc + [neg_b(g)]
                if g is TRUE or not ex.sat(pc, TRUE):
                    break
        for j in range(len(cs)):
            self.cases_all.add((base, j))
        if n == 0:
            self.ob(base + "/no path returns", ("open", ""), F, meth)
        for nm, pc, goal in ex.checks:
            self.goal("%s/requires: %s" % (base, nm), list(pc), goal, F, meth)

    def value(self, ex, F, meth, name, pc, o, val):
        v = o.val
        t0 = time.time()
        if meth == "modes":
            els = v.f if isinstance(v, Agg) and v.kind in ("vec", "array") else None
            if els is None:
                return self.lost(name, Unsupported("modes value"), F, meth)
            if len(els) != len(val):
                return self.ob(name, ("open", "refuted"), F, meth, pc, "%d modes instead of %d" % (len(els), len(val)))
            for k, (e, w) in enumerate(zip(els, val)):
                e = e.t if isinstance(e, Fl) else i2r(e) if isinstance(e, T) else e
                if isinstance(e, str):
                    self.ob(name, ("open", "refuted"), F, meth, pc, "infinite mode")
                else:
                    self.eq("%s/mode%d" % (name, k), pc, e, w, F, meth)
            if not els:
                self.ob(name, ("proved", "syntactic"), F, meth, pc)
            return
        if val == specs.ANY:
            return self.ob(name, ("proved", "unconstrained"), F, meth, pc)
        if isinstance(v, str) or isinstance(val, str):
            ok = v == val
            res = ("proved", "syntactic") if ok else \
                ("proved", "z3 (path infeasible)") if smt.check(pc, 600) == "unsat" else ("open", "refuted")
            return self.ob(name, res, F, meth, pc, "%s, expected %s" % (show_val(v), val if isinstance(val, str) else show(val)), t0)
        t = v.t if isinstance(v, Fl) else i2r(v)
        return self.eq(name, pc, t, val, F, meth)

    # ---------------------------------------------------------- inputs for the real crate
    def pool(self, F, meth):
        """concrete inputs (params, arg), in logical form"""
        key = ("pool", F.name, meth)
        if key not in self.done:
            r = self.r
            out = []
            pp = gen.params(F.name, r, 40, 40, self.rep.lits)
            r.shuffle(pp)
            for ps in pp:
                if meth in ("density", "distribution"):
                    args = gen.xs(F.name, ps, r, 6, self.rep.lits) if not F.discrete else gen.dxs(F.name, ps, r, 3)
                elif meth == "mass":
                    args = gen.ks(F.name, ps, r, 4)
                elif meth == "inverse":
                    args = gen.probs(r, 8, self.rep.lits) + [0.0, 1.0]
                else:
                    args = [None]
                out += [(ps, x) for x in args]
            r.shuffle(out)
            self.done[key] = out[:1500]
        return self.done[key]

    def env(self, F, meth, ps, arg):
        return oracle.env_of(F, ps, meth, arg)

    def holds(self, pc, env, memo=None):
        import loops
        memo = {} if memo is None else memo
        for b in sorted(pc, key=lambda b: not loops.plain(b)):
            fv = free(b)
            if any(v not in env for v in fv):
                return None
            try:
                if not evalmp(b, env, memo):
                    return False
            except Exception:   # noqa
                return None
        return True

    def model_points(self, F, meth, pc, k=4):
        """inputs read off solver models of the path condition"""
        out = []
        if F.fam == "Categorical":
            return out
        cons = [[]]
        vs = [p for p in F.params]
        av = {"density": X, "distribution": X, "mass": K_, "inverse": P_}.get(meth)
        allv = vs + ([av] if av is not None else [])
        for v in allv:
            if v.s == "R":
                cons += [[lt(v, const(3)), lt(const(-3), v)], [lt(const(2), v)]]
        for c in cons[:k]:
            try:
                r, m, e = smt.check(list(pc) + c, 800, True, True)
            except Exception:   # noqa
                continue
            if r != "sat":
                continue
            try:
                ps = tuple(int(smt.model_value(m, v)) if v.s == "I" else float(smt.model_value(m, v)) for v in vs)
                a = None if av is None else int(smt.model_value(m, av)) if av.s == "I" else float(smt.model_value(m, av))
            except (TypeError, OverflowError, ValueError):
                continue
            if self.valid(F, ps, a):
                out.append((ps, a))
        return out

    def valid(self, F, ps, a):
        if any(isinstance(p, float) and not (abs(p) < 1e15 and (p == 0 or abs(p) > 1e-12)) for p in ps):
            return False
        if isinstance(a, float) and not (abs(a) < 1e18 and (a == 0 or abs(a) > 1e-200)):
            return False
        if any(isinstance(p, int) and p > 20000 for p in ps):
            return False
        try:
            return gen.ok(F.name, ps) and bool(self.holds(F.pre, self.env(F, None, ps, None)))
        except Exception:   # noqa
            return False

    def witnesses(self, F, meth, pc, most=3, tries=1500):
        out = []
        for ps, a in self.pool(F, meth)[:tries]:
            key = (F.name, meth, ps, a)
            if key not in self.envs:
                self.envs[key] = self.env(F, meth, ps, a), {}
            if self.holds(pc, *self.envs[key]):
                out.append((ps, a))
                if len(out) >= most:
                    return out
        return out

    def edges(self, F, meth, pc, sets=6):
        """neighbouring arguments of which one is on the path and the other is not"""
        by, out = {}, []
        for ps, a in self.pool(F, meth):
            if isinstance(a, float) and math.isfinite(a):
                by.setdefault(ps, []).append(a)
        ok = lambda ps, a: bool(self.holds(pc, self.env(F, meth, ps, a)))
        for ps in sorted(by, key=lambda ps: -len(by[ps])):
            l = sorted(set(by[ps]))[:60]
            on = [ok(ps, a) for a in l]
            hit = False
            for x, y, u, v in zip(l, l[1:], on, on[1:]):
                if u == v:
                    continue
                hit = True
                for _ in range(1100):
                    z = 0.5 * (x + y)
                    if not x < z < y:
                        break
                    if ok(ps, z) == u:
                        x = z
                    else:
                        y = z
                out += [(ps, z) for z in (x, y, math.nextafter(x, -math.inf), math.nextafter(y, math.inf)) if meth != "inverse" or 0 <= z <= 1]
            sets -= hit
            if sets <= 0 or len(out) > 60:
                break
        return out

    def target(self, F, meth, ps, a):
        """have the run-time contract evaluation visit this input"""
        gen.add_target(F.name, ps, meth, a)
        self.rep.targets.append((F.name, meth, ps, a))

    def aim_at(self, o, cex):
        """send a counterexample to the real crate"""
        F = o.F
        if F.fam == "Categorical":
            return
        try:
            cv = lambda v: int(cex[show(v)]) if v.s == "I" else float(cex[show(v)])
            ps = tuple(cv(v) for v in F.params)
            av = {"density": X, "distribution": X, "mass": K_, "inverse": P_}.get(o.meth)
            self.target(F, o.meth, ps, None if av is None else cv(av))
        except (KeyError, ValueError):
            pass

    # ---------------------------------------------------------- finishing
    def aim(self):
        """send inputs on every open obligation's path (and one per path otherwise) to the real crate"""
        seen = {}
        for o in self.obs:
            if o.F is None or o.meth is None or not o.pc:
                continue
            key = (o.F.name, o.meth, tuple(o.pc))
            if key in seen:
                continue
            m = o.meth
            pc = [b for b in o.pc]
            w = self.witnesses(o.F, m, pc, 1 if o.status == "proved" else 12, 400 if o.status == "proved" else 1500)
            if not w or o.status != "proved":
                w = w + self.model_points(o.F, m, pc, 2 if o.status == "proved" else 6)
            if o.status == "open" and o.by not in ("unsupported", "time budget"):
                w = w + self.edges(o.F, m, pc)
            seen[key] = w
            if w:
                self.witnessed += 1
            for ps, a in w:
                self.target(o.F, m, ps, a)

    def finish(self):
        rep = self.rep
        t0 = time.time()
        self.aim()
        rep.bounded, rep.refuted, rep.open = [], [], []
        rep.findings = [dict(obligation=o.name, finding=o.by, what=o.note[:300]) for o in self.obs if o.status == "finding"]
        for o in self.obs:
            if o.status != "open":
                continue
            why = self.bounded(o)
            if why:
                o.status = "bounded"
                rep.bounded.append(dict(obligation=o.name, reason=why))
                continue
            e = dict(obligation=o.name, what=o.note[:400])
            # what the engine could not execute, or had no time for, is left to the evaluation on the real crate;
            # any other obligation that is not discharged is a failing obligation
            if o.by not in ("unsupported", "time budget") and t0 < self.W.t_end:
                e["failing"] = True
            if o.by == "refuted" and not o.pc:
                rep.refuted.append(e)
                continue
            bad = self.refute(o)
            if bad:
                rep.refuted.append(dict(e, counterexample=bad[0], fails=bad[1]))
                if o.F is not None and o.meth is not None:
                    self.aim_at(o, bad[0])
            else:
                rep.open.append(dict(e, back_end=o.by))
        rep.total = len(self.obs)
        rep.done = sum(o.status == "proved" for o in self.obs)
        rep.obl = [(o.name, o.status, o.by, round(o.secs, 3)) for o in self.obs]
        for o in self.obs:
            rep.by[o.by or o.status] = rep.by.get(o.by or o.status, 0) + 1
            if o.status == "open":
                rep.notes.append("open obligation: %s  [%s]" % (o.name, o.note))
        rep.functions = sorted(self.functions)
        rep.callee_contracts = sorted(self.used)
        rep.libs = sorted(self.libs)
        rep.loops = self.loops
        rep.assumed = sorted(set(rep.assumed) | {"theorem used without proof: " + t for t in self.trusted} | ASSUMED.get(self.pid, set()))
        rep.cases = (len(self.cases_hit & self.cases_all), len(self.cases_all))
        rep.paths, rep.witnessed = self.paths, self.witnessed
        rep.solver = {k: dict(queries=v[0], seconds=round(v[1], 2)) for k, v in smt.STATS.items()}


def run(pid, srv, seed, tier, rep):
    import prove3, prove4, prove5, prove6, prove7, prove8
    PROPS.update({k: getattr(prove2, k) for k in ("C14", "C15", "C17", "C18")})
    for m in (prove3, prove4, prove5, prove6, prove7, prove8):
        PROPS.update({k: v for k, v in vars(m).items() if k[0] == "C" and k[1:].isdigit()})
    p = Prover(pid, srv, seed, tier, rep)
    rep.lits = mined_literals(p.W)
    f = PROPS.get(pid)
    if f is None:
        rep.notes.append("no obligations registered")
        return
    try:
        f(p)
    finally:
        p.finish()


def mined_literals(W):
    import re
    out = set()
    for m in re.finditer(r"const (-?[\d.]+(?:[eE][-+]?\d+)?)f64", W.text):
        v = abs(float(m.group(1)))
        if 1e-12 < v < 1e12:
            out.add(v)
    return sorted(out)


def all_of(*methods):
    def go(p):
        for F in FAM.values():
            for m in methods:
                if m in F.m:
                    p.contract(F, m)
    return go


LIBM = "the special functions of the dependency (incomplete beta and gamma, ln gamma, digamma, error function) compute what their names say"
TEXT = ("the densities and masses in specs.py are the textbook ones of the named families (distribution functions, quantiles, medians, modes, moments and "
        "entropies are derived from them by lemmas in C02, C05, C07, C08, C09, C10, C11)")
ASSUMED = {"C%02d" % i: {LIBM, TEXT} for i in range(1, 20)}
ASSUMED["C14"] = ASSUMED["C17"] = ASSUMED["C18"] = set()
for i in (1, 4, 11, 19):
    ASSUMED["C%02d" % i] = ASSUMED["C%02d" % i] | {
        "Stirling's series of ln gamma envelops: the error is below the first term left out (used for arguments above 35)"}
for i in (5, 6, 7, 12, 13, 15):
    ASSUMED["C%02d" % i] = ASSUMED["C%02d" % i] | {"objects of the binomial family have fewer than 2^31 trials where the loops over outcomes are concerned"}

PROPS = {"C01": all_of("density", "mass"), "C02": all_of("distribution"), "C09": all_of("mean", "variance", "deviation"),
         "C10": all_of("skewness", "kurtosis"), "C11": all_of("entropy")}
PROPS_BASE = dict(PROPS)
