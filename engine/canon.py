"""Normal form of real terms: generalised Laurent polynomials over atoms.

exp/ln/sqrt/powers are rewritten into products of powers of atoms (exp and
positive atoms admit rational exponents), lgamma/digamma are shifted to a
canonical offset, bounded sums are made linear.  Every rewriting rule used is a
textbook identity valid under the positivity facts, which are discharged by z3
under the path condition.
"""
from fractions import Fraction as Q
import math
from term import *
import smt

DEG_LIMIT = 4000


class CanonError(Exception):
    pass


def factorint(n):
    out, p = {}, 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


class Atom:
    __slots__ = ("id", "kind", "data", "pos", "fv", "term")

    def __init__(self, id, kind, data, pos, fv, term):
        self.id, self.kind, self.data, self.pos, self.fv, self.term = id, kind, data, pos, fv, term


class Canon:
    def __init__(self, pc=(), timeout=1500):
        self.pc = list(pc)
        self.timeout = timeout
        self.atoms = []
        self.bykey = {}
        self.memo = {}
        self.signs = {}
        self.opaque = {}
        self.posrule = {}
        self.subs = self._equalities()
        self.depth = 0

    # -------------------------------------------------- facts
    def _equalities(self):
        """var := term substitutions read off the path condition"""
        subs = {}
        facts, les = [], set()
        for b in self.pc:
            for e in (b.a if b.op == "and" else (b,)):
                facts.append(e)
                if e.op == "le":
                    les.add(e.a)
                    if (e.a[1], e.a[0]) in les:
                        facts.append(eq(*e.a))
        for e in facts:
            if True:
                if e.op != "eq":
                    continue
                x, y = (subst(u, subs) for u in e.a)
                if x.s not in "RI":
                    continue
                for u, w in ((x, y), (y, x)):
                    s = self._solve(u, w)
                    if s:
                        v, w2 = s
                        subs = {k: subst(z, {v: w2}) for k, z in subs.items()}
                        subs[v] = w2
                        break
        return subs

    @staticmethod
    def _solve(u, w):
        if u.op == "i2r" and u.a[0].op == "v":
            k = unreal(w)
            if k is not None and u.a[0] not in free(k):
                return u.a[0], k
            return None
        if u.op == "r2i" and w.op == "c":
            return u, w
        if u.op == "v" and u not in free(w) and w.op not in ("trunc", "floor", "round", "r2i"):
            return u, w
        if u.op == "+" and w.op == "c":
            # linear in some variable with constant coefficient
            for t in u.a:
                k, v = (t.a[0].a[0], t.a[1:]) if t.op == "*" and t.a[0].op == "c" else (Q(1), (t,))
                if len(v) == 1 and v[0].op == "v":
                    rest = [x for x in u.a if x is not t]
                    r = mul(const(Q(1) / k, u.s), sub(w, add(*rest)))
                    if u.s == "I" and k not in (1, -1):
                        continue
                    if v[0] not in free(r):
                        return v[0], r
        return None

    def sign(self, t):
        """'+', '-', '0+' (>=0), '0-' or None"""
        r = self.signs.get(t, 0)
        if r != 0:
            return r
        if t.op == "c":
            r = "+" if t.a[0] > 0 else "-" if t.a[0] < 0 else "0+"
        elif t.op in ("exp", "pi"):
            r = "+"
        elif t.op == "pow" and t.a[1].denominator != 1:
            r = "+" if self.sign(t.a[0]) == "+" else "0+"
        elif t.op == "*":
            ss = [self.sign(u) for u in t.a]
            if all(s in ("+", "-") for s in ss):
                r = "+" if ss.count("-") % 2 == 0 else "-"
            else:
                r = self._zsign(t)
        elif t.op == "+" and all(self.sign(u) in ("+", "0+") for u in t.a) and any(self.sign(u) == "+" for u in t.a):
            r = "+"
        else:
            r = self._zsign(t)
        self.signs[t] = r
        return r

    def _zsign(self, t):
        pc = self.pc
        for b, s in ((le(t, ZERO), "+"), (le(ZERO, t), "-"), (lt(t, ZERO), "0+"), (lt(ZERO, t), "0-")):
            if smt.check(pc + [b], self.timeout) == "unsat":
                return s
        return None

    # -------------------------------------------------- atoms
    def atom(self, kind, data, pos, fv, term):
        key = (kind, data)
        a = self.bykey.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, data, pos, frozenset(fv), term)
            self.atoms.append(a)
            self.bykey[key] = a
        return a

    def leaf(self, t, pos=None):
        if pos is None:
            pos = self.sign(t) == "+"
        return self.atom("leaf", t, pos, free(t), t)

    def mono1(self, a, e=1):
        return {((a.id, Q(e)),): Q(1)}

    # -------------------------------------------------- polynomial arithmetic
    @staticmethod
    def padd(p, q, k=Q(1)):
        r = dict(p)
        for m, c_ in q.items():
            x = r.get(m, 0) + k * c_
            if x == 0:
                r.pop(m, None)
            else:
                r[m] = x
        return r

    @staticmethod
    def mmul(m, n):
        if not m:
            return n
        if not n:
            return m
        d = dict(m)
        for i, e in n:
            x = d.get(i, 0) + e
            if x == 0:
                d.pop(i)
            else:
                d[i] = x
        return tuple(sorted(d.items()))

    def pmul(self, p, q):
        if len(p) * len(q) > DEG_LIMIT * 50:
            raise CanonError("too large")
        r = {}
        for m, c1 in p.items():
            for n, c2 in q.items():
                k = self.mmul(m, n)
                x = r.get(k, 0) + c1 * c2
                if x == 0:
                    r.pop(k, None)
                else:
                    r[k] = x
        return self.reduce(r)

    def reduce(self, p):
        """base atoms keep exponents < 1; primes in [0,1)"""
        out = {}
        todo = list(p.items())
        dirty = False
        for m, c_ in todo:
            for i, e in m:
                a = self.atoms[i]
                if (a.kind == "base" and e >= 1) or (a.kind == "prime" and not 0 <= e < 1):
                    dirty = True
                    break
            if dirty:
                break
        if not dirty:
            return p
        for m, c_ in todo:
            acc = {(): c_}
            keep = []
            for i, e in m:
                a = self.atoms[i]
                if a.kind == "base" and e >= 1:
                    k = math.floor(e)
                    if e - k:
                        keep.append((i, e - k))
                    for _ in range(k):
                        acc = self.pmul(acc, a.data_poly())
                elif a.kind == "prime" and not 0 <= e < 1:
                    k = math.floor(e)
                    acc = {mm: cc * Q(a.data) ** k for mm, cc in acc.items()}
                    if e - k:
                        keep.append((i, e - k))
                else:
                    keep.append((i, e))
            km = tuple(sorted(keep))
            acc2 = {}
            for mm, cc in acc.items():
                acc2[self.mmul(km, mm)] = cc
            acc2 = self.reduce(acc2)
            out = self.padd(out, acc2)
        return out

    def pconst(self, q):
        return {(): Q(q)} if q != 0 else {}

    def ppow_int(self, p, e):
        if e == 0:
            return {(): Q(1)}
        if e > 0:
            r = p
            for _ in range(e - 1):
                r = self.pmul(r, p)
            return r
        if len(p) == 1:
            (m, c_), = p.items()
            return self.reduce({tuple((i, k * e) for i, k in m): c_ ** e})
        if not p:
            raise CanonError("0 to a negative power")
        c0, m0, f = self.primitive(p)
        if self.sign(self.term(f)) in ("-", "0-"):
            f, c0 = {m: -c_ for m, c_ in f.items()}, -c0
        b = self.base(f)
        r = {tuple((i, k * e) for i, k in m0): c0 ** e}
        return self.pmul(self.reduce(r), {((b.id, Q(e)),): Q(1)})

    def primitive(self, p):
        """p = c * m * f with f normalised (min exponents removed, leading coefficient 1)"""
        mins = {}
        ms = list(p)
        ids = set(i for m in ms for i, _ in m)
        for i in ids:
            es = [dict(m).get(i, Q(0)) for m in ms]
            lo = min(es)
            if lo != 0:
                mins[i] = lo
        m0 = tuple(sorted(mins.items()))
        inv = tuple((i, -e) for i, e in m0)
        f = {self.mmul(m, inv): c_ for m, c_ in p.items()}
        lead = max(f)
        c0 = f[lead]
        f = {m: c_ / c0 for m, c_ in f.items()}
        return c0, m0, f

    def base(self, f):
        key = tuple(sorted(f.items()))
        a = self.bykey.get(("base", key))
        if a is None:
            t = self.term(f)
            a = _Base(len(self.atoms), "base", key, self.sign(t) == "+", free(t), t)
            a.poly = dict(f)
            self.atoms.append(a)
            self.bykey[("base", key)] = a
        return a

    def factors(self, p):
        """list of (poly, multiplicity), constant — via sympy on the polynomial part"""
        import sympy
        ids = sorted(set(i for m in p for i, _ in m))
        # rational exponents: rescale atoms
        den = {i: 1 for i in ids}
        for m in p:
            for i, e in m:
                den[i] = den[i] * e.denominator // math.gcd(den[i], e.denominator)
        if not ids:
            return p.get((), Q(0)), []
        syms = {i: sympy.Symbol("a%d" % i) for i in ids}
        gens = [syms[i] for i in ids]
        d = {}
        for m, c_ in p.items():
            mm = dict(m)
            d[tuple(int(mm.get(i, 0) * den[i]) for i in ids)] = sympy.Rational(c_.numerator, c_.denominator)
        P = sympy.Poly.from_dict(d, *gens, domain="QQ")
        c0, fs = P.factor_list()
        out = []
        for f, k in fs:
            q = {}
            for ex, cf in f.terms():
                m = tuple((i, Q(e, den[i])) for i, e in zip(ids, ex) if e)
                q[m] = Q(int(cf.p), int(cf.q))
            out.append((q, int(k)))
        return Q(int(c0.p), int(c0.q)), out

    def split(self, p):
        """p as constant * product of powers of atoms with known sign: (const, [(Atom-like poly/atom, exp)])"""
        if len(p) == 1:
            (m, c_), = p.items()
            return c_, [(self.atoms[i], e) for i, e in m]
        c0, m0, f = self.primitive(p)
        fs = [(self.atoms[i], e) for i, e in m0]
        if len(f) <= 40:
            c1, fl = self.factors(f)
        else:
            c1, fl = Q(1), [(f, 1)]
        c0 *= c1
        for q, k in fl:
            if len(q) == 1:
                (m, c_), = q.items()
                c0 *= c_ ** k
                fs += [(self.atoms[i], e * k) for i, e in m]
            else:
                c2, m2, f2 = self.primitive(q)
                t = self.term(f2)
                s = self.sign(t)
                if s in ("-", "0-"):
                    f2 = {m: -c_ for m, c_ in f2.items()}
                    c2 = -c2
                c0 *= c2 ** k
                fs += [(self.atoms[i], e * k) for i, e in m2]
                fs.append((self.base(f2), Q(k)))
        return c0, fs

    def ppow_frac(self, p, e, t):
        if not p:
            if e > 0:
                return {}
            raise CanonError("0^-q")
        c0, fs = self.split(p)
        out = {(): Q(1)}
        flip = False
        for a, k in fs:
            x = k * e
            if a.pos:
                out = self.pmul(out, self.reduce({((a.id, x),): Q(1)}))
                continue
            s = self.sign(a.term)
            if s in ("+", "0+"):
                out = self.pmul(out, self.reduce({((a.id, x),): Q(1)}))
            elif k.denominator == 1 and s in ("-", "0-"):
                # a^k = (-1)^k |a|^k
                if k % 2:
                    flip = not flip
                if x.denominator == 1:
                    out = self.pmul(out, {((a.id, x),): Q(-1) ** int(x)})
                else:
                    b = self.absatom(a)
                    out = self.pmul(out, b if False else self.reduce(self._absneg(a, x)))
            else:
                return self.opq(mk("pow", self.term(p), e), [p])
        if flip:
            c0 = -c0
        if c0 < 0:
            return self.opq(mk("pow", self.term(p), e), [p])
        for pr, k in factorint(c0.numerator).items():
            out = self.pmul(out, self.reduce({((self.prime(pr).id, Q(k) * e),): Q(1)}))
        for pr, k in factorint(c0.denominator).items():
            out = self.pmul(out, self.reduce({((self.prime(pr).id, Q(-k) * e),): Q(1)}))
        return out

    def absatom(self, a):
        return None

    def _absneg(self, a, x):
        nb = self.base(self._neg(a))
        return {((nb.id, x),): Q(1)}

    @staticmethod
    def _neg(a):
        if a.kind == "base":
            return {m: -c_ for m, c_ in a.poly.items()}
        return {((a.id, Q(1)),): Q(-1)}

    def prime(self, p):
        return self.atom("prime", p, True, frozenset(), const(p))

    # -------------------------------------------------- terms of polynomials
    def term(self, p):
        ts = []
        for m, c_ in sorted(p.items()):
            fs = [const(c_)]
            for i, e in m:
                fs.append(power(self.atoms[i].term, e))
            ts.append(mul(*fs))
        return add(*ts) if ts else ZERO

    # -------------------------------------------------- opaque functions
    def opq(self, t, args):
        """atom for an uninterpreted application; unify by equality of the arguments"""
        op = (t.op, t.a[1] if t.op == "pow" else None)
        lst = self.opaque.setdefault(op, [])
        for args2, a in lst:
            if len(args) == len(args2) and all(self.peq(x, y) for x, y in zip(args, args2)):
                return self.mono1(a)
        a = self.leaf(t)
        lst.append((args, a))
        return self.mono1(a)

    def peq(self, p, q):
        return self.iszero(self.padd(p, q, Q(-1)))

    # -------------------------------------------------- conversion
    def conv(self, t):
        r = self.memo.get(t)
        if r is None:
            t2 = subst(t, self.subs) if self.subs else t
            r = self.memo.get(t2) if t2 is not t else None
            if r is None:
                r = self._conv(t2)
                self.memo[t2] = r
            self.memo[t] = r
        return r

    def _conv(self, t):
        op, a = t.op, t.a
        if op == "c":
            return self.pconst(a[0])
        if op == "+":
            r = {}
            for u in a:
                r = self.padd(r, self.conv(u))
            return r
        if op == "*":
            r = {(): Q(1)}
            for u in a:
                r = self.pmul(r, self.conv(u))
            return r
        if op == "pow":
            p, e = self.conv(a[0]), a[1]
            if e.denominator == 1:
                return self.ppow_int(p, int(e))
            return self.ppow_frac(p, e, t)
        if op == "exp":
            return self.pexp(self.conv(a[0]))
        if op == "ln":
            return self.pln(self.conv(a[0]), t)
        if op == "erf" or op == "atan" or op == "tan" or op == "sin":
            p = self.conv(a[0])
            s = 1
            if p:
                lead = max(p)
                if p[lead] < 0:
                    p, s = {m: -c_ for m, c_ in p.items()}, -1
            else:
                return {}
            r = self.inverse_pair(op, p)
            if r is None:
                r = self.opq(fn(op, self.term(p)), [p])
            return {m: s * c_ for m, c_ in r.items()}
        if op == "lgam":
            return self.plgam(self.conv(a[0]))
        if op == "digam":
            return self.pdigam(self.conv(a[0]))
        if op in ("floor", "trunc") and self.sign(a[0]) in ("+", "0+"):
            return self.conv(i2r(r2i(a[0])))
        if op == "incb":
            x, p, q = (self.conv(u) for u in a)
            one = {(): Q(1)}
            r = self.incb_iincb(x, p, q)
            if r is not None:
                return r
            if q == one:       # I_x(p, 1) = x^p
                if not x:
                    return {}
                return self.conv(fn("exp", mul(self.term(p), fn("ln", self.term(x)))))
            if p == one and x != one:
                return self.padd(one, self.conv(fn("exp", mul(self.term(q), fn("ln", sub(ONE, self.term(x)))))), Q(-1))
            y = self.padd(one, x, Q(-1))
            if self.peq(x, y) and self.peq(p, q):
                return {(): Q(1, 2)}
            # I_x(p,q) = 1 - I_{1-x}(q,p): choose the representative with the smaller key
            r = self.mirrored("incb", [x, p, q], [y, q, p])
            if r is not None:
                return r
            k1 = (sorted(x.items()), sorted(p.items()), sorted(q.items()))
            k2 = (sorted(y.items()), sorted(q.items()), sorted(p.items()))
            if k1 <= k2:
                return self.opq(fn("incb", self.term(x), self.term(p), self.term(q)), [x, p, q])
            r = self.opq(fn("incb", self.term(y), self.term(q), self.term(p)), [y, q, p])
            return self.padd(one, r, Q(-1))
        if op == "phiinv":
            # quantile symmetry: the representative of {p, 1-p} with the smaller key
            p = self.conv(a[0])
            y = self.padd({(): Q(1)}, p, Q(-1))
            if p == y:
                return {}
            if sorted(y.items()) < sorted(p.items()):
                r = self.opq(fn("phiinv", self.term(y)), [y])
                return {m: -c_ for m, c_ in r.items()}
            return self.opq(fn("phiinv", self.term(p)), [p])
        if op == "iincb":
            x, p, q = (self.conv(u) for u in a)
            y = self.padd({(): Q(1)}, x, Q(-1))
            if self.peq(x, y) and self.peq(p, q):
                return {(): Q(1, 2)}
            one = {(): Q(1)}
            if p == one and q == one:      # I_x(1, 1) = x
                return x
            r = self.mirrored("iincb", [x, p, q], [y, q, p])
            if r is not None:
                return r
            k1 = (sorted(x.items()), sorted(p.items()), sorted(q.items()))
            k2 = (sorted(y.items()), sorted(q.items()), sorted(p.items()))
            if k1 <= k2:
                return self.opq(fn("iincb", self.term(x), self.term(p), self.term(q)), [x, p, q])
            r = self.opq(fn("iincb", self.term(y), self.term(q), self.term(p)), [y, q, p])
            return self.padd({(): Q(1)}, r, Q(-1))
        if op in ("incg", "floor", "trunc", "round", "erfc", "cos"):
            args = [self.conv(u) for u in a]
            if op == "incg" and args[1] == {(): Q(1)}:     # P(x; 1) = 1 - exp(-x)
                return self.conv(sub(ONE, fn("exp", neg(self.term(args[0])))))
            return self.opq(rebuild(t, tuple(self.term(p) for p in args)), args)
        if op == "sum":
            return self.psum(t)
        if op == "i2r":
            u = a[0]
            return self.mono1(self.leaf(t))
        if op == "ite" and t.s == "R" and (a[1] is ZERO or a[2] is ZERO):
            return self.pcase(a[0] if a[2] is ZERO else neg_b(a[0]), a[1] if a[2] is ZERO else a[2], t)
        return self.mono1(self.leaf(t))

    def pcase(self, c, x, t):
        """x where c holds, zero elsewhere: the indicator of c times x (as it is under c)"""
        ind = ite(c, ONE, ZERO)
        if ind.op != "ite" or x is ONE or self.depth > 20:
            return self.mono1(self.leaf(t))
        old_pc, old_memo, old_signs = self.pc, self.memo, self.signs
        self.pc = list(self.pc) + [c]
        self.memo, self.signs = {}, dict(old_signs)
        try:
            p = self.conv(x)
        finally:
            self.pc, self.memo, self.signs = old_pc, old_memo, old_signs
        return self.pmul(self.mono1(self.leaf(ind)), p)

    def inverse_pair(self, op, p):
        """erf(phiinv(y)/sqrt 2) = 2y - 1, atan(tan y) = y for |y| < pi/2, tan(atan y) = y"""
        if op == "erf":
            q = self.pmul(p, self.conv(sqrt(const(2))))
            for args, at in self.opaque.get(("phiinv", None), []):
                for s in (1, -1):
                    if q == {((at.id, Q(1)),): Q(s)}:
                        y = args[0]
                        return {m: s * c_ for m, c_ in self.padd({m: 2 * c_ for m, c_ in y.items()}, {(): Q(1)}, Q(-1)).items()}
        other = {"atan": "tan", "tan": "atan"}.get(op)
        if other:
            for args, at in self.opaque.get((other, None), []):
                for s in (1, -1):
                    if p == {((at.id, Q(1)),): Q(s)}:
                        y = {m: s * c_ for m, c_ in args[0].items()}
                        t = self.term(y)
                        h = mul(const(Q(1, 2)), PI)
                        if op == "tan" or self.sign(sub(h, t)) == "+" and self.sign(add(h, t)) == "+":
                            return y
        return None

    def mirrored(self, op, xs, ys):
        """an earlier application equal to this one, or to its mirror image"""
        for args, at in self.opaque.get((op, None), []):
            if all(self.peq(u, v) for u, v in zip(args, xs)):
                return {((at.id, Q(1)),): Q(1)}
            if all(self.peq(u, v) for u, v in zip(args, ys)):
                return {(): Q(1), ((at.id, Q(1)),): Q(-1)}
        return None

    def incb_iincb(self, x, p, q):
        """I at its inverse: x = iincb(y, p, q), or 1 - iincb(y, q, p)"""
        for (y, p2, q2), at in self.opaque.get(("iincb", None), []):
            r = {((at.id, Q(1)),): Q(1)}
            if x == r and self.peq(p, p2) and self.peq(q, q2):
                return y
            if self.padd(x, r) == {(): Q(1)} and self.peq(p, q2) and self.peq(q, p2):
                return self.padd({(): Q(1)}, y, Q(-1))
        return None

    def pexp(self, p):
        out = {(): Q(1)}
        for m, c_ in p.items():
            out = self.pmul(out, self._exp1(m, c_))
        return out

    def _exp1(self, m, c_):
        if m == ():
            e = self.atom("E", None, True, frozenset(), fn("exp", ONE))
            return {((e.id, c_),): Q(1)}
        if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == "ln":
            b = self.atoms[self.atoms[m[0][0]].data]
            return self.reduce({((b.id, c_),): Q(1)})
        tm = self.term({m: Q(1)})
        x = self.atom("X", m, True, free(tm), fn("exp", tm))
        return {((x.id, c_),): Q(1)}

    def pln(self, p, t):
        c0, fs = self.split(p)
        out = {}
        flip = False
        for a, k in fs:
            if not a.pos and self.sign(a.term) != "+":
                if self.sign(a.term) == "-" and k.denominator == 1:
                    if k % 2:
                        flip = not flip
                    nb = self.base(self._neg(a))
                    la = self.lnatom(nb)
                    out = self.padd(out, {((la.id, Q(1)),): k})
                    continue
                return self.opq(fn("ln", self.term(p)), [p])
            out = self.padd(out, self.lnof(a), k)
        if flip:
            c0 = -c0
        if c0 <= 0:
            return self.opq(fn("ln", self.term(p)), [p])
        for pr, k in factorint(c0.numerator).items():
            out = self.padd(out, self.lnof(self.prime(pr)), Q(k))
        for pr, k in factorint(c0.denominator).items():
            out = self.padd(out, self.lnof(self.prime(pr)), Q(-k))
        return out

    def lnatom(self, a):
        t = fn("ln", a.term)
        return self.atom("ln", a.id, False, free(t), t)

    def lnof(self, a):
        if a.kind == "E":
            return {(): Q(1)}
        if a.kind == "X":
            return {a.data: Q(1)}
        return {((self.lnatom(a).id, Q(1)),): Q(1)}

    def _offset(self, p):
        k = p.get((), Q(0))
        want = k - math.floor(k) + 1      # canonical constant part in [1, 2)
        return int(k - want)

    def plgam(self, p):
        """lgam(y + m) with m shifted away: lgam(z+1) = ln z + lgam(z)"""
        d = self._offset(p)
        if len(p) <= 1 and (not p or () in p):
            k = p.get((), Q(0))
            if k.denominator == 1 and 0 < k < 60:
                out = {}
                return self.pln({(): Q(math.factorial(int(k) - 1))}, None) if k > 2 else {}
            if k.denominator == 1:
                return self.opq(fn("lgam", self.term(p)), [p])
        if abs(d) > 8:
            return self.opq(fn("lgam", self.term(p)), [p])
        q = self.padd(p, {(): Q(-d)})
        out = {}
        if d > 0:     # lgam(q+d) = lgam(q) + sum ln(q+i)
            for i in range(d):
                out = self.padd(out, self.pln(self.padd(q, {(): Q(i)} if i else {}), None))
        elif d < 0:
            for i in range(-d):
                z = self.padd(q, {(): Q(-1 - i)})
                if self.sign(self.term(z)) != "+":
                    return self.opq(fn("lgam", self.term(p)), [p])
                out = self.padd(out, self.pln(z, None), Q(-1))
        if not (set(q) - {()}):
            return self.padd(out, self.plgam(q)) if d else self.opq(fn("lgam", self.term(q)), [q])
        return self.padd(out, self.opq(fn("lgam", self.term(q)), [q]))

    def pdigam(self, p):
        d = self._offset(p)
        if abs(d) > 8:
            return self.opq(fn("digam", self.term(p)), [p])
        q = self.padd(p, {(): Q(-d)})
        out = {}
        if d > 0:
            for i in range(d):
                out = self.padd(out, self.ppow_int(self.padd(q, {(): Q(i)} if i else {}), -1))
        elif d < 0:
            for i in range(-d):
                z = self.padd(q, {(): Q(-1 - i)})
                if self.sign(self.term(z)) != "+":
                    return self.opq(fn("digam", self.term(p)), [p])
                out = self.padd(out, self.ppow_int(z, -1), Q(-1))
        return self.padd(out, self.opq(fn("digam", self.term(q)), [q]))

    def psum(self, t):
        v, lo, hi, body = t.a
        if lo.op == "c" and 0 < lo.a[0] <= 2 and smt.check(list(self.pc) + [lt(hi, lo)], 600) == "unsat":
            # from zero on, less the first terms (where they are defined)
            try:
                first = {}
                for j in range(int(lo.a[0])):
                    first = self.padd(first, self.conv(subst(body, {v: const(j, "I")})))
            except (CanonError, ZeroDivisionError):
                first = None
            if first is not None:
                return self.padd(self.psum(mk("sum", v, IZERO, hi, body)), first, Q(-1))
        self.depth += 1
        cv = var("@%d" % self.depth, "I")
        old_pc, old_memo, old_signs = self.pc, self.memo, self.signs
        body = subst(body, {v: cv})
        self.pc = self.pc + [le(lo, cv), lt(cv, hi)]
        self.memo, self.signs = {}, dict(old_signs)
        try:
            p = self.conv(body)
        finally:
            self.pc, self.memo, self.signs = old_pc, old_memo, old_signs
            self.depth -= 1
        lo, hi = subst(lo, self.subs), subst(hi, self.subs)
        out = {}
        for m, c_ in p.items():
            dep = tuple((i, e) for i, e in m if cv in self.atoms[i].fv)
            ind = tuple((i, e) for i, e in m if cv not in self.atoms[i].fv)
            if not dep:
                n = self.conv(i2r(sub(hi, lo)))
                s = n
            else:
                tm = self.term({dep: Q(1)})
                st = mk("sum", cv, lo, hi, tm)
                rule = SUMRULES.get(None)
                s = None
                for r in self.sumrules:
                    s = r(self, cv, lo, hi, tm)
                    if s is not None:
                        s = self.conv(s)
                        break
                if s is None:
                    s = self.mono1(self.atom("leaf", st, False, free(st), st))
            out = self.padd(out, self.pmul({ind: c_}, s))
        return out

    sumrules = []

    # -------------------------------------------------- zero test
    def iszero(self, p, depth=0):
        p = self.reduce(p)
        if not p:
            return True
        if depth > 12:
            return False
        # clear negative powers of base atoms, one base at a time
        bases = {}
        for m in p:
            for i, e in m:
                a = self.atoms[i]
                if a.kind == "base" and e < 0:
                    bases[i] = min(bases.get(i, Q(0)), e)
        if not bases:
            return False
        i = max(bases)
        k = math.ceil(-bases[i])
        q = {}
        for m, c_ in p.items():
            q2 = self.reduce({self.mmul(m, ((i, Q(k)),)): c_})
            q = self.padd(q, q2)
        return self.iszero(q, depth + 1)

    def equal(self, x, y):
        return self.iszero(self.padd(self.conv(x), self.conv(y), Q(-1)))


class _Base(Atom):
    __slots__ = ("poly",)

    def data_poly(self):
        return self.poly


Atom.data_poly = lambda self: dict(self.data)
SUMRULES = {}
