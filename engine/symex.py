"""Symbolic execution of the compiler's MIR, function by function.

Values
  Fl(t, raw)   a finite double: its exact real value t (a term) and the tree of
               floating-point operations that produced it
  "+inf" "-inf" "nan"  the other doubles
  T of sort I / B        integers (mathematical; machine bounds are obligations) and booleans
  Agg                    structs, tuples, enums, closures, arrays, vectors, iterators
  Ref                    a reference: root location and access path
Memory is a map from locations to values, copied when a path forks.

Every call is either to a function with a contract (contracts are substituted,
bodies are not entered), to a small inlined helper of the crate, or to a
library function with an assumed contract (lib.py)."""
import re, itertools, time
from fractions import Fraction as Q
import mirp, smt
from term import *

U64 = 2 ** 64


class Unsupported(Exception):
    pass


class Fl:
    __slots__ = ("t", "raw")

    def __init__(self, t, raw=None):
        self.t = t
        self.raw = raw if raw is not None else ("leaf", t)

    def __repr__(self):
        return "Fl(%s)" % show(self.t)


PINF, NINF, NAN = "+inf", "-inf", "nan"


def isf(v):
    return isinstance(v, (Fl, str))


class Agg:
    __slots__ = ("kind", "name", "variant", "f", "origin")

    def __init__(self, kind, name, variant, f, origin=None):
        self.kind, self.name, self.variant, self.f, self.origin = kind, name, variant, tuple(f), origin

    def __repr__(self):
        return "%s:%s%s%r" % (self.kind, self.name, "" if self.variant is None else "#%s" % self.variant, self.f)

    def same(self, o):
        return isinstance(o, Agg) and (self.kind, self.name, self.variant, len(self.f)) == (o.kind, o.name, o.variant, len(o.f)) \
            and all(same(x, y) for x, y in zip(self.f, o.f))


class SymVec:
    """vector of doubles of symbolic length: an array variable"""
    __slots__ = ("arr", "n")

    def __init__(self, arr, n):
        self.arr, self.n = arr, n

    @staticmethod
    def of(v, st):
        """a concrete vector of doubles"""
        if isinstance(v, SymVec):
            return v
        a = fresh("v", "A")
        for i, e in enumerate(v.f):
            st.assume(eq(sel(a, const(i, "I")), e.t))
        return SymVec(a, const(len(v.f), "I"))


class IVec:
    """strictly ascending vector of integers of unknown length: its indicator function and its last
    element (-1 when empty)"""
    __slots__ = ("arr", "last")

    def __init__(self, arr, last):
        self.arr, self.last = arr, last

    def has(self, i):
        return eq(sel(self.arr, i), ONE)

    @staticmethod
    def of(v, st):
        """a concrete vector with at most one element"""
        if isinstance(v, IVec):
            return v
        if not (isinstance(v, Agg) and v.kind == "vec" and len(v.f) <= 1 and all(isinstance(e, T) and e.s == "I" for e in v.f)):
            raise Unsupported("vector of integers")
        a, j = fresh("m", "A"), var("j", "I")
        st.assume(forall(j, IZERO, const(U64, "I"), eq(sel(a, j), ite(eq(j, v.f[0]), ONE, ZERO) if v.f else ZERO)))
        return IVec(a, v.f[0] if v.f else const(-1, "I"))


class Ref:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def __repr__(self):
        return "&%s%s" % (self.root, list(self.path))


class Seq:
    """iterator state: elements at(st, i) for pos <= i < n; ops are map/filter stages"""
    __slots__ = ("base", "pos", "end", "stages")

    def __init__(self, base, pos, end, stages=()):
        self.base, self.pos, self.end, self.stages = base, pos, end, tuple(stages)


def same(x, y):
    if x is y:
        return True
    if isinstance(x, Fl) and isinstance(y, Fl):
        return x.t is y.t
    if isinstance(x, Agg):
        return x.same(y)
    if isinstance(x, Ref) and isinstance(y, Ref):
        return x.root == y.root and x.path == y.path
    if isinstance(x, SymVec) and isinstance(y, SymVec):
        return x.arr is y.arr and x.n is y.n
    if isinstance(x, IVec) and isinstance(y, IVec):
        return x.arr is y.arr and x.last is y.last
    if isinstance(x, Seq) and isinstance(y, Seq):
        return same(x.base, y.base) and x.pos is y.pos and x.end is y.end and len(x.stages) == len(y.stages) and \
            all(a[0] == b[0] and same(a[1], b[1]) for a, b in zip(x.stages, y.stages))
    return x == y if isinstance(x, str) and isinstance(y, str) else False


class St:
    __slots__ = ("pc", "mem", "draws", "events", "cut")

    def __init__(self, pc=(), mem=None, draws=(), events=(), cut=()):
        self.pc, self.mem, self.draws, self.events, self.cut = tuple(pc), dict(mem or {}), tuple(draws), tuple(events), tuple(cut)

    def fork(self, b=None):
        s = St(self.pc, self.mem, self.draws, self.events, self.cut)
        if b is not None:
            s.assume(b)
        return s

    def assume(self, b):
        if b is TRUE:
            return
        for x in (b.a if b.op == "and" else (b,)):
            if x not in self.pc:
                self.pc = self.pc + (x,)


class Out:
    """outcome of a call: kind 'ret' | 'panic' | 'retry' | 'cut'"""
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


UNIT = Agg("tuple", "()", None, ())
RANGE = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "usize": (0, 2 ** 64 - 1),
         "i8": (-128, 127), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1),
         "isize": (-2 ** 63, 2 ** 63 - 1)}


def option(v=None):
    return Agg("adt", "Option", 0 if v is None else 1, () if v is None else (v,))


# ------------------------------------------------------------------ literals
SNAP = None


def snap_literal(text):
    """The decimal written in the source (shortest representation), exactly.  Known
    irrational constants are recognised by their nearest double."""
    global SNAP
    import math
    x = float(text)
    if SNAP is None:
        s2 = sqrt(const(2))
        base = {math.pi: PI, math.e: fn("exp", ONE), math.sqrt(2): s2, math.sqrt(.5): div(ONE, s2), math.log(2): fn("ln", const(2)),
                math.log(10): fn("ln", const(10)), 1 / math.pi: div(ONE, PI), 2 / math.pi: div(const(2), PI),
                2 / math.sqrt(math.pi): div(const(2), sqrt(PI)), math.pi / 2: mul(const(Q(1, 2)), PI), math.pi / 3: mul(const(Q(1, 3)), PI),
                math.pi / 4: mul(const(Q(1, 4)), PI), math.pi / 6: mul(const(Q(1, 6)), PI), math.pi / 8: mul(const(Q(1, 8)), PI), 2 * math.pi: mul(const(2), PI),
                math.log2(math.e): div(ONE, fn("ln", const(2))), math.log10(math.e): div(ONE, fn("ln", const(10)))}
        SNAP = {}
        for k, v in base.items():
            SNAP[k] = v
            SNAP[-k] = neg(v)
    if x in SNAP:
        return SNAP[x]
    return const(Q(repr(x)))


CONSTS = {"PI": "3.141592653589793", "E": "2.718281828459045", "SQRT_2": "1.4142135623730951", "LN_2": "0.6931471805599453",
          "LN_10": "2.302585092994046", "FRAC_1_PI": "0.3183098861837907", "FRAC_PI_2": "1.5707963267948966",
          "FRAC_2_SQRT_PI": "1.1283791670955126", "FRAC_1_SQRT_2": "0.7071067811865476", "TAU": "6.283185307179586",
          "FRAC_2_PI": "0.6366197723675814", "FRAC_PI_3": "1.0471975511965979", "FRAC_PI_4": "0.7853981633974483",
          "FRAC_PI_6": "0.5235987755982989", "FRAC_PI_8": "0.39269908169872414", "LOG2_E": "1.4426950408889634", "LOG10_E": "0.4342944819032518"}


# ------------------------------------------------------------------ the executor
class Exec:
    def __init__(self, module, impls, contracts=None, loops=None, lib=None, timeout=1500, deadline=None, unroll=10):
        self.m, self.impls = module, impls
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.stack = []
        import lib as L
        self.lib = L
        self.timeout = timeout
        self.deadline = deadline
        self.fid = itertools.count(1)
        self.tables = {}
        self.tabkey = {}
        self.entered = []
        self.used_contracts = set()
        self.used_lib = set()
        self.loop_obl = []
        self.covered = []
        self.unroll = unroll
        self.steps = 0
        self.limit = 20000
        self.cache = {}
        self.live_cache = {}
        self.noinline = set()
        self.checks = []     # (name, pc, goal): preconditions of library/contract calls
        self.resolved = {}
        self.absorb = None   # the meaning of s + d == s, where rounding is not ignored

    # ---------------------------------------------------------- solver
    def sat(self, pc, *bs):
        self.late()
        for b in bs:
            if b is FALSE:
                return False
        bs = [b for b in bs if b is not TRUE]
        key = (frozenset(pc), frozenset(bs))
        r = self.cache.get(key)
        if r is None:
            pcs = set(pc)
            if any(neg_b(b) in pcs for b in bs):
                r = False
            elif all(b in pcs for b in bs) and bs:
                r = True
            else:
                r = smt.check(list(pc) + bs, self.timeout) != "unsat"
            self.cache[key] = r
        return r

    def late(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time budget")

    def split(self, st, b):
        """[(state, truth)] of the feasible sides"""
        if b is TRUE:
            return [(st, True)]
        if b is FALSE:
            return [(st, False)]
        nb = neg_b(b)
        t = self.sat(st.pc, b)
        if not t:
            return [(st, False)]
        f = self.sat(st.pc, nb)
        if not f:
            return [(st, True)]
        return [(st.fork(b), True), (st.fork(nb), False)]

    # ---------------------------------------------------------- memory
    def heap(self, st, v):
        k = ("h", next(self.fid))
        st.mem[k] = v
        return Ref(k)

    def load(self, st, root, path):
        if root not in st.mem:
            raise Unsupported("uninitialised %s" % (root,))
        v = st.mem[root]
        for p in path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if isinstance(p, int):
            if isinstance(v, Agg):
                if v.kind == "box" and p == 0:
                    return v
                if p < len(v.f):
                    return v.f[p]
            raise Unsupported("field %d of %r" % (p, v))
        if p[0] == "idx":
            i = p[1]
            if isinstance(v, SymVec):
                return Fl(sel(v.arr, i))
            if isinstance(v, Agg) and v.kind == "slice":
                return self.proj(st, self.load(st, v.f[0].root, v.f[0].path), ("idx", add(v.f[1], i)))
            if isinstance(v, Agg) and v.kind in ("vec", "array"):
                if i.op == "c":
                    k = int(i.a[0])
                    if 0 <= k < len(v.f):
                        return v.f[k]
                    raise Unsupported("index out of range")
                return self.table(v, i)
        raise Unsupported("projection %r of %r" % (p, v))

    def table(self, v, i):
        key = tuple(x.t if isinstance(x, Fl) else x for x in v.f)
        if not all(isinstance(x, T) and x.op == "c" for x in key):
            raise Unsupported("symbolic index into a non-constant array")
        a = self.tabkey.get(key)
        if a is None:
            a = var("tab%d" % len(self.tabkey), "A")
            self.tabkey[key] = a
            self.tables[a] = [x.a[0] for x in key]
        t = sel(a, i)
        if key[0].s == "I":
            return mk("isel", a, i, s="I")
        return Fl(t)

    def store(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        st.mem[root] = self._upd(st, st.mem.get(root), path, val)

    def _upd(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if isinstance(p, int):
            if v is None:
                v = Agg("tuple", "?", None, ())
            if not isinstance(v, Agg):
                raise Unsupported("store into %r" % (v,))
            fs = list(v.f)
            while len(fs) <= p:
                fs.append(None)
            fs[p] = self._upd(st, fs[p], path[1:], val)
            return Agg(v.kind, v.name, v.variant, fs)
        if p[0] == "idx":
            i = p[1]
            if isinstance(v, Agg) and i.op == "c":
                fs = list(v.f)
                fs[int(i.a[0])] = self._upd(st, fs[int(i.a[0])], path[1:], val)
                return Agg(v.kind, v.name, v.variant, fs)
            if isinstance(v, SymVec) and len(path) == 1 and isinstance(val, Fl):
                a2 = fresh("arr", "A")
                j = fresh("j", "I")
                st.assume(eq(sel(a2, i), val.t))
                st.assume(forall(j, IZERO, v.n, disj(eq(j, i), eq(sel(a2, j), sel(v.arr, j)))))
                return SymVec(a2, v.n)
        raise Unsupported("store %r" % (p,))

    # ---------------------------------------------------------- places
    def place(self, fr, st, pl):
        """-> (root, path)"""
        loc, projs = pl
        root, path = ("l", fr.fid, loc), ()
        for p in projs:
            if p[0] == "*":
                v = self.load(st, root, path)
                if isinstance(v, Ref):
                    root, path = v.root, v.path
                elif isinstance(v, Agg) and v.kind == "box":
                    root, path = v.f[0].root, v.f[0].path
                elif isinstance(v, Agg) and v.kind == "str":
                    pass
                else:
                    raise Unsupported("deref of %r" % (v,))
            elif p[0] == "f":
                v = self.load(st, root, path) if root in st.mem else None
                if isinstance(v, Agg) and v.kind == "box":
                    # Box<..>.0.0 etc. lead to the pointer itself
                    continue
                if isinstance(v, Agg) and v.kind == "uninit":
                    continue
                path = path + (p[1],)
            elif p[0] == "as":
                pass
            elif p[0] == "i":
                path = path + (("idx", self.load(st, ("l", fr.fid, p[1]), ())),)
            elif p[0] == "ci":
                if p[2]:
                    n = self.length(self.load(st, root, path))
                    path = path + (("idx", sub(n, const(p[1], "I"))),)
                else:
                    path = path + (("idx", const(p[1], "I")),)
        return root, path

    def length(self, v):
        if isinstance(v, SymVec):
            return v.n
        if isinstance(v, Agg) and v.kind in ("vec", "array"):
            return const(len(v.f), "I")
        if isinstance(v, Agg) and v.kind == "slice":
            return v.f[2]
        raise Unsupported("length of %r" % (v,))

    def operand(self, fr, st, op):
        if op[0] == "place":
            root, path = self.place(fr, st, op[1])
            return self.load(st, root, path)
        return self.constant(fr, st, op[1])

    def constant(self, fr, st, s):
        if s in ("true", "false"):
            return TRUE if s == "true" else FALSE
        if s == "()":
            return UNIT
        if s.startswith("fn "):
            return Agg("fnitem", s[3:], None, ())
        m = re.match(r"(-?\d+)_(\w+)$", s)
        if m:
            return const(int(m.group(1)), "I")
        m = re.match(r"(-?[\d.]+(?:[eE][-+]?\d+)?)f64$", s)
        if m:
            return Fl(snap_literal(m.group(1)))
        if s.startswith('"'):
            return Agg("str", s, None, ())
        last = s.split("::")[-1]
        if s in ("core::f64::INFINITY", "core::f64::<impl f64>::INFINITY", "std::f64::INFINITY", "+inff64", "inff64"):
            return PINF
        if s in ("core::f64::NEG_INFINITY", "core::f64::<impl f64>::NEG_INFINITY", "std::f64::NEG_INFINITY", "-inff64"):
            return NINF
        if s in ("core::f64::NAN", "core::f64::<impl f64>::NAN", "NaNf64", "std::f64::NAN"):
            return NAN
        if s.endswith("f64::EPSILON") or s == "core::f64::<impl f64>::EPSILON":
            return Fl(const(Q(2) ** -52))
        if s.endswith("MIN_POSITIVE"):
            return Fl(const(Q(2) ** -1022))
        if s in ("core::f64::MAX", "core::f64::<impl f64>::MAX"):
            return Fl(const(Q(2) ** 1024 - Q(2) ** 971))
        m = re.match(r"core::num::<impl (\w+)>::(MAX|MIN)$", s)
        if m and m.group(1) in RANGE:
            return const(RANGE[m.group(1)][1 if m.group(2) == "MAX" else 0], "I")
        if re.match(r"(core|std)::f64::consts::", s) and last in CONSTS:
            return Fl(snap_literal(CONSTS[last]))
        k = self.const_item(s)
        if k is None:
            if re.match(r"[\w:]*(None)$", s) or "Option::<" in s and s.endswith("None"):
                return option()
            raise Unsupported("constant " + s)
        kind, body = k
        if kind == "lit":
            return self.constant(fr, st, body)
        outs = self.run(body, [], st, inline=True)
        if len(outs) != 1 or outs[0].kind != "ret":
            raise Unsupported("constant body " + s)
        st.mem = outs[0].st.mem
        return outs[0].val

    def const_item(self, s):
        if s in self.m.consts:
            return self.m.consts[s]
        if s in self.resolved:
            return self.resolved[s]
        r = None
        m = re.match(r"<(.+?) as (.+?)>::(.*)$", s)
        cands = []
        if m:
            for pre in self.impls.get((norm_type(m.group(1)), norm_trait(m.group(2))), []):
                cands.append(pre + "::" + m.group(3))
        else:
            m = re.match(r"((?:\w+::)*\w+)::(\w+)::(.*)$", s)
            # Type::method::promoted[0]
            for i in range(1, s.count("::") + 1):
                head, tail = s.rsplit("::", i)[0], "::".join(s.rsplit("::", i)[1:])
                for pre in self.impls.get((norm_type(head), None), []):
                    cands.append(pre + "::" + tail)
        for c in cands:
            if c in self.m.consts:
                r = self.m.consts[c]
                break
        self.resolved[s] = r
        return r

    # ---------------------------------------------------------- functions
    def find(self, head):
        """Func of a call head inside the crate, or None"""
        if head in self.resolved:
            return self.resolved[head]
        r = self._find(head)
        self.resolved[head] = r
        return r

    def _find(self, head):
        h = strip_generics(head)
        if h in self.m.funcs:
            return self.m.funcs[h]
        m = re.match(r"<(.+) as ([\w:]+(?:<.*>)?)>::(\w+)", head)
        if m:
            for pre in self.impls.get((norm_type(m.group(1)), norm_trait(m.group(2))), []):
                f = self.m.funcs.get(pre + "::" + m.group(3))
                if f:
                    return f
            # default method of a trait of the crate
            f = self.m.funcs.get(strip_generics(m.group(2)) + "::" + m.group(3))
            return f
        if "::" in h:
            ty, meth = h.rsplit("::", 1)
            for pre in self.impls.get((norm_type(ty), None), []):
                f = self.m.funcs.get(pre + "::" + meth)
                if f:
                    return f
        return None

    def closure_func(self, name):
        key = ("closure", name)
        if key not in self.resolved:
            r = None
            for f in self.m.funcs.values():
                if f.params and name in f.params[0][1] and "{closure#" in f.name.split("::")[-1]:
                    r = f
                    break
            self.resolved[key] = r
        return self.resolved[key]

    def call_closure(self, st, clo, args):
        """clo: closure value or Ref to one"""
        v = clo
        while isinstance(v, Ref):
            v = self.load(st, v.root, v.path)
        if not (isinstance(v, Agg) and v.kind == "closure"):
            if isinstance(v, Agg) and v.kind == "fnitem":
                return self.call(st, v.name, args)
            raise Unsupported("call of %r" % (v,))
        f = self.closure_func(v.name)
        if f is None:
            raise Unsupported("closure body of " + v.name)
        first = v
        if f.params[0][1].startswith("&"):
            first = clo if isinstance(clo, Ref) else self.heap(st, v)
            while isinstance(first, Ref) and isinstance(self.load(st, first.root, first.path), Ref):
                first = self.load(st, first.root, first.path)
        return self.run(f, [first] + list(args), st, inline=True)

    # ---------------------------------------------------------- running
    def run(self, f, args, st, inline=False):
        """Outcomes of executing f's body."""
        self.stack.append(f.name)
        try:
            return self.run_body(f, args, st)
        finally:
            self.stack.pop()

    def run_body(self, f, args, st):
        if f.blocks is None:
            raise Unsupported("unparsed body " + f.name)
        fr = Frame(f, next(self.fid))
        self.entered.append(f.name)
        if len(args) != len(f.params):
            if len(f.params) == 1 + 1 and len(args) > 2:
                pass
            raise Unsupported("arity of " + f.name)
        st = st.fork()
        for (n, ty), a in zip(f.params, args):
            st.mem[("l", fr.fid, n)] = a
        heads = loop_heads(f)
        work = [(0, st, {})]
        outs = []
        while work:
            bb, st, seen = work.pop()
            self.steps += 1
            if self.steps > self.limit:
                raise Unsupported("path limit")
            if bb in heads:
                r = self.at_head(fr, bb, st, seen, outs)
                if r is None:
                    continue
                st, seen = r
            stmts, term = f.blocks[bb]
            states = [st]
            for s in stmts:
                nxt = []
                for x in states:
                    nxt += self.stmt(fr, x, s, outs)
                states = nxt
            for x in states:
                work += [(b, y, seen) for b, y in self.term(fr, x, term, outs)]
        # forget the frame
        for o in outs:
            for k in [k for k in o.st.mem if k[0] == "l" and k[1] == fr.fid]:
                if o.kind in ("panic",) or not refers(o, k):
                    pass
        return outs

    def at_head(self, fr, bb, st, seen, outs):
        """Loop heads: an annotated invariant cuts the loop; otherwise a second arrival in
        the same abstract state is a memoryless retry; otherwise the loop is unrolled."""
        spec = self.loop_spec(fr, bb)
        if spec is None and bb not in seen:
            import loops
            found = loops.Auto.applies(self, fr, bb, st)
            if found:
                st2 = loops.Auto(found).enter(self, fr, bb, st)
                if st2 is not None:
                    seen = dict(seen)
                    seen[bb] = ("inv", None, 0)
                    return st2, seen
            # a loop of a helper: the candidates of the method that called it
            for n in reversed(self.stack):
                if n in self.loops:
                    spec = loops.Houdini(self.loops[n])
                    break
        live = self.liveness(fr.f)[bb]
        snap = {n: st.mem.get(("l", fr.fid, n)) for n in live}
        if bb not in seen:
            seen = dict(seen)
            if spec is not None:
                st2 = spec.enter(self, fr, bb, st)
                if st2 is None:
                    return None
                seen[bb] = ("inv", None, 0)
                return st2, seen
            seen[bb] = ("snap", (snap, st.pc, len(st.draws)), 1)
            return st, seen
        kind, old, cnt = seen[bb]
        if kind == "inv":
            outs.append(Out("cut", st))
            return None
        if self.renames(old[0], snap, st, old[1]):
            outs.append(Out("retry", st, (fr.f.name, bb, old[2])))
            return None
        if cnt >= self.unroll:
            raise Unsupported("loop without invariant in " + fr.f.name)
        seen = dict(seen)
        seen[bb] = (kind, old, cnt + 1)
        return st, seen

    def loop_spec(self, fr, bb):
        g = self.loops.get(fr.f.name)
        if g is None:
            return None
        import loops
        return loops.Houdini(g)

    def valid(self, pc, b, budget=None):
        """pc entails b"""
        if b is TRUE or b in pc:
            return True
        self.late()
        key = ("valid", frozenset(pc), b)
        r = self.cache.get(key)
        if r is None:
            r = all(g in pc or self.valid1(pc, g, budget) for g in (b.a if b.op == "and" else (b,)))
            self.cache[key] = r
        return r

    def valid_set(self, pc, cs):
        """indices of the claims that pc entails"""
        import loops
        out = {i for i, c in enumerate(cs) if c is TRUE or c in pc}
        rest = [i for i in range(len(cs)) if i not in out and cs[i] is not FALSE]
        plain = [i for i in rest if loops.plain(cs[i])]
        if len(plain) > 2:
            # claims without special functions: many at a time, first from the facts without them
            bad, done = smt.refute([b for b in pc if loops.plain(b)], [cs[i] for i in plain])
            if done:
                out |= {i for j, i in enumerate(plain) if j not in bad}
                if all(loops.plain(b) for b in pc):
                    rest = [i for i in rest if i not in plain]
                plain = [i for j, i in enumerate(plain) if j in bad]
            if plain and any(i in rest for i in plain):
                bad, done = smt.refute(pc, [cs[i] for i in plain])
                if done:
                    out |= {i for j, i in enumerate(plain) if j not in bad}
                rest = [i for i in rest if i not in {plain[j] for j in bad}]
        return out | {i for i in rest if i not in out and self.valid(pc, cs[i])}

    def valid1(self, pc, g, budget):
        pc = list(pc)
        eqs = [h for h in (g.a if g.op == "or" else (g,)) if h.op == "eq" and h.a[0].s == "R" and h.a[0].op != "sel" and h.a[1].op != "sel"]
        if len(eqs) == 1 and self.special(eqs[0]):
            # an equation between special functions: the normal form decides, under the other disjuncts' negations
            q = pc + [neg_b(h) for h in (g.a if g.op == "or" else ()) if h is not eqs[0]]
            return smt.check(q, 400) == "unsat" or self.eq_mod(self.resolve(q), *eqs[0].a)
        import loops
        if loops.plain(g):
            q = [b for b in pc if loops.plain(b)]
            if smt.check(q + [neg_b(g)], 300) == "unsat":
                return True
        return smt.check(pc + [neg_b(g)], budget or self.timeout) == "unsat"

    def resolve(self, pc):
        """equations left of disjunctive facts whose other alternatives are excluded"""
        import loops
        plain = [b for b in pc if loops.plain(b)]
        out = list(pc)
        for b in pc:
            if b.op == "or":
                es = [h for h in b.a if h.op == "eq" and h.a[0].s == "R"]
                os = [h for h in b.a if h not in es]
                if len(es) == 1 and all(loops.plain(h) and smt.check(plain + [h], 300) == "unsat" for h in os):
                    out.append(es[0])
        return out

    def special(self, t):
        if not isinstance(t, T):
            return False
        if t.op in ("exp", "incb", "lgam"):
            return True
        return any(self.special(u) for u in t.a)

    def eq_mod(self, pc, x, y):
        """x = y by the normal form, modulo one instance of the registered lemmas"""
        import canon, loops
        try:
            c = canon.Canon(pc)
            d = c.padd(c.conv(x), c.conv(y), Q(-1))
            if c.iszero(d):
                return True
            for guard, t in loops.binomial_lemmas(self, pc):
                e = c.conv(t)
                for s in (Q(1), Q(-1)):
                    if c.iszero(c.padd(d, e, s)) and self.valid(pc, guard, 600):
                        return True
        except (canon.CanonError, RecursionError, ZeroDivisionError):
            pass
        return False

    def explore(self, fr, start, st, body):
        """states in which control comes back to `start` through the blocks of `body`"""
        back, outs = [], []
        work, first = [(start, st, {})], True
        while work:
            bb, st, seen = work.pop()
            if bb == start and not first:
                back.append(st)
                continue
            if bb not in body:
                continue
            self.steps += 1
            if self.steps > self.limit:
                raise Unsupported("path limit")
            if bb != start and bb in loop_heads(fr.f):
                r = self.at_head(fr, bb, st, seen, outs)
                if r is None:
                    continue
                st, seen = r
            first = False
            stmts, term = fr.f.blocks[bb]
            states = [st]
            for s in stmts:
                states = [y for x in states for y in self.stmt(fr, x, s, outs)]
            for x in states:
                work += [(b, y, seen) for b, y in self.term(fr, x, term, outs)]
        return back

    def renames(self, a, b, st, pc0):
        """equal values, up to renaming draws of the same kind that nothing constrains yet"""
        kinds = {}
        for d in st.draws:
            kinds[d[1]] = d[0] if d[0] != "gamma" else (d[0], d[2])
        ren = {}
        for n in a:
            x, y = a[n], b.get(n)
            if x is None and y is None:
                continue
            if x is None or y is None:
                return False
            if same(x, y):
                continue
            if isinstance(x, Fl) and isinstance(y, Fl) and x.t in kinds and kinds.get(x.t) == kinds.get(y.t):
                ren[x.t] = y.t
                continue
            return False
        # at either arrival the renamed draws are subject to the same facts
        if ren:
            old = {subst(p, ren) for p in pc0 if free(p) & set(ren)}
            new = {p for p in st.pc if free(p) & set(ren.values())}
            return old == new
        return True

    def liveness(self, f):
        r = self.live_cache.get(f.name)
        if r is None:
            r = liveness(f)
            self.live_cache[f.name] = r
        return r

    # ---------------------------------------------------------- statements
    def stmt(self, fr, st, s, outs):
        if s[0] == "setdiscr":
            root, path = self.place(fr, st, s[1])
            v = self.load(st, root, path)
            self.store(st, root, path, Agg(v.kind, v.name, s[2], v.f))
            return [st]
        _, pl, text = s
        rv = RV.get(text)
        if rv is None:
            rv = mirp.parse_rvalue(text)
            RV[text] = rv
        res = self.rvalue(fr, st, rv, pl)
        out = []
        for x, v in res:
            root, path = self.place(fr, x, pl)
            if x.mem.get(root) is not None and isinstance(x.mem[root], Agg) and x.mem[root].kind == "uninit":
                x.mem[root] = v if not path else self._upd(x, None, path, v)
            else:
                self.store(x, root, path, v)
            out.append(x)
        return out

    def rvalue(self, fr, st, rv, pl):
        k = rv[0]
        if k == "use":
            return [(st, self.operand(fr, st, rv[1]))]
        if k == "bin":
            a, b = self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3])
            return self.binop(fr, st, rv[1], a, b, self.optype(fr, rv[2]) or self.optype(fr, rv[3]))
        if k == "un":
            a = self.operand(fr, st, rv[2])
            if rv[1] == "Not":
                if isinstance(a, T) and a.s == "B":
                    return [(st, neg_b(a))]
                raise Unsupported("bitwise not")
            if rv[1] == "Neg":
                if isinstance(a, str):
                    return [(st, {PINF: NINF, NINF: PINF, NAN: NAN}[a])]
                if isinstance(a, Fl):
                    return [(st, Fl(neg(a.t), ("neg", a.raw)))]
                return [(st, neg(a))]
            if rv[1] == "PtrMetadata":
                while isinstance(a, Ref):
                    a = self.load(st, a.root, a.path)
                return [(st, self.length(a))]
        if k == "discr":
            root, path = self.place(fr, st, rv[1])
            v = self.load(st, root, path)
            if isinstance(v, Agg) and v.variant is not None:
                return [(st, const(v.variant, "I"))]
            raise Unsupported("discriminant of %r" % (v,))
        if k == "len":
            root, path = self.place(fr, st, rv[1])
            return [(st, self.length(self.load(st, root, path)))]
        if k == "cast":
            return self.cast(fr, st, self.operand(fr, st, rv[1]), rv[2], rv[3], self.optype(fr, rv[1]))
        if k == "ref":
            root, path = self.place(fr, st, rv[1])
            return [(st, Ref(root, path))]
        if k == "array":
            return [(st, Agg("array", None, None, [self.operand(fr, st, o) for o in rv[1]]))]
        if k == "repeat":
            n = re.match(r"(?:const )?(\d+)", rv[2])
            if not n:
                raise Unsupported("repeat length")
            v = self.operand(fr, st, rv[1])
            return [(st, Agg("array", None, None, [v] * int(n.group(1))))]
        if k == "tuple":
            return [(st, Agg("tuple", None, None, [self.operand(fr, st, o) for o in rv[1]]))]
        if k == "closure":
            return [(st, Agg("closure", rv[1], 0, [self.operand(fr, st, o) for o in rv[2]]))]
        if k == "adt":
            return [(st, self.adt(fr, st, rv))]
        raise Unsupported("rvalue %s" % k)

    def adt(self, fr, st, rv):
        path = strip_generics(rv[1])
        fs = [self.operand(fr, st, o) for _, o in rv[2]]
        parts = path.split("::")
        last = parts[-1]
        if "Option" in parts or "Option" == last:
            return option(fs[0]) if last == "Some" else option()
        if len(parts) > 1 and parts[-2] == "Ordering":
            return Agg("adt", "Ordering", {"Less": -1, "Equal": 0, "Greater": 1}[last], ())
        if path in ("core::ops::Range", "core::ops::range::Range"):
            return Agg("adt", "Range", None, fs)
        # a struct of the crate: fields in declaration order of the struct literal's MIR (field names kept)
        return Agg("adt", path, None, fs)

    def optype(self, fr, op):
        if op[0] == "place":
            loc, projs = op[1]
            if not projs:
                return fr.f.types.get(loc)
            for p in reversed(projs):
                if p[0] == "f":
                    return p[2]
                if p[0] == "*":
                    if len(projs) == 1:
                        t = fr.f.types.get(loc, "")
                        return t.lstrip("&").replace("mut ", "")
                    break
            return None
        m = re.match(r"-?[\d.eE+-]+?_?(f64|u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)$", op[1])
        return m.group(1) if m else None

    def cast(self, fr, st, v, ty, kind, fromty):
        if kind.startswith("PointerCoercion") or kind in ("Transmute", "PtrToPtr", "BoxDerefTransmute"):
            return [(st, v)]
        if kind == "IntToFloat":
            return [(st, Fl(i2r(v), ("i2r", v)))]
        if kind == "FloatToFloat":
            return [(st, v)]
        if kind == "FloatToInt":
            lo, hi = RANGE[ty]
            if isinstance(v, str):
                return [(st, const({PINF: hi, NINF: lo, NAN: 0}[v], "I"))]
            if lo != 0:
                if unreal(v.t) is not None:
                    return [(st, unreal(v.t))]
                raise Unsupported("signed float to int")
            out = []
            for s1, nonpos in self.split(st, le(v.t, ZERO)):
                if nonpos:
                    out.append((s1, IZERO))
                    continue
                for s2, big in self.split(s1, le(const(hi), v.t)):
                    out.append((s2, const(hi, "I") if big else r2i(v.t)))
            return out
        if kind == "IntToInt":
            lo, hi = RANGE.get(ty, (None, None))
            if lo is None:
                raise Unsupported("cast to " + ty)
            if isinstance(v, T) and v.s == "B":
                return [(st, ite(v, IONE, IZERO))]
            out = []
            inb = conj(le(const(lo, "I"), v), le(v, const(hi, "I")))
            if not self.sat(st.pc, neg_b(inb)):
                return [(st, v)]
            if lo == 0:
                return [(st, mk("imod", v, const(hi + 1, "I"), s="I"))]
            raise Unsupported("wrapping cast")
        raise Unsupported("cast " + kind)

    # ---------------------------------------------------------- arithmetic
    def binop(self, fr, st, op, a, b, ty):
        if isf(a) and isf(b):
            return self.fbin(st, op, a, b)
        if isinstance(a, T) and isinstance(b, T):
            if a.s == "B" or b.s == "B":
                if op == "BitAnd":
                    return [(st, conj(a, b))]
                if op == "BitOr":
                    return [(st, disj(a, b))]
                if op in ("Eq", "Ne"):
                    r = eq(a, b)
                    return [(st, r if op == "Eq" else neg_b(r))]
                raise Unsupported("bool " + op)
            return self.ibin(st, op, a, b, ty)
        raise Unsupported("%s of %r and %r" % (op, a, b))

    def ibin(self, st, op, a, b, ty):
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            r = {"Lt": lambda: lt(a, b), "Le": lambda: le(a, b), "Gt": lambda: lt(b, a), "Ge": lambda: le(b, a),
                 "Eq": lambda: eq(a, b), "Ne": lambda: ne(a, b)}[op]()
            return [(st, r)]
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            v = {"Add": add, "Sub": sub, "Mul": mul}[base](a, b)
            if op.endswith("WithOverflow"):
                lo, hi = RANGE.get(ty, RANGE["usize"])
                if base == "Sub" and lo == 0:
                    ov = lt(a, b)
                elif v.op == "c":
                    ov = FALSE if lo <= v.a[0] <= hi else TRUE
                else:
                    ov = disj(lt(v, const(lo, "I")), lt(const(hi, "I"), v))
                return [(st, Agg("tuple", None, None, (v, ov)))]
            return [(st, v)]
        if op in ("Div", "Rem") and b.op == "c" and b.a[0] > 0:
            if a.op == "c":
                q = int(a.a[0]) // int(b.a[0])
                return [(st, const(q if op == "Div" else int(a.a[0]) - q * int(b.a[0]), "I"))]
            return [(st, mk("idiv" if op == "Div" else "imod", a, b, s="I"))]
        if op == "BitAnd" and b.op == "c":
            k = int(b.a[0])
            if k & (k + 1) == 0:
                return [(st, mk("imod", a, const(k + 1, "I"), s="I"))]
            if k & (k - 1) == 0:
                return [(st, mul(const(k, "I"), mk("imod", mk("idiv", a, const(k, "I"), s="I"), const(2, "I"), s="I")))]
        if op == "Shr" and b.op == "c":
            return [(st, mk("idiv", a, const(2 ** int(b.a[0]), "I"), s="I"))]
        if op == "Shl" and b.op == "c":
            return [(st, mk("imod", mul(a, const(2 ** int(b.a[0]), "I")), const(U64, "I"), s="I"))]
        raise Unsupported("integer " + op)

    def sgn(self, st, t):
        """fork on the sign of t: (state, -1|0|1)"""
        out = []
        for s1, z in self.split(st, eq(t, ZERO)):
            if z:
                out.append((s1, 0))
                continue
            for s2, p in self.split(s1, lt(ZERO, t)):
                out.append((s2, 1 if p else -1))
        return out

    def fbin(self, st, op, a, b):
        if op in ("Eq", "Ne") and self.absorb and isinstance(a, Fl) and isinstance(b, Fl):
            r = self.absorb(self, st, a, b)
            if r is not None:
                return [(s2, t if op == "Eq" else neg_b(t)) for s2, t in r]
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return [(st, fcmp(op, a, b))]
        if a == NAN or b == NAN:
            return [(st, NAN)]
        raw = lambda: (op, a.raw, b.raw)
        if isinstance(a, Fl) and isinstance(b, Fl):
            if op == "Add":
                return [(st, Fl(add(a.t, b.t), raw()))]
            if op == "Sub":
                return [(st, Fl(sub(a.t, b.t), raw()))]
            if op == "Mul":
                return [(st, Fl(mul(a.t, b.t), raw()))]
            if op == "Div":
                if b.t.op == "c" and b.t.a[0] != 0:
                    return [(st, Fl(div(a.t, b.t), raw()))]
                out = []
                for s1, z in self.split(st, eq(b.t, ZERO)):
                    if not z:
                        out.append((s1, Fl(div(a.t, b.t), raw())))
                        continue
                    for s2, g in self.sgn(s1, a.t):
                        out.append((s2, NAN if g == 0 else PINF if g > 0 else NINF))
                return out
            if op == "Rem":
                raise Unsupported("float remainder")
        if op == "Sub":
            b2 = {PINF: NINF, NINF: PINF}.get(b, b) if isinstance(b, str) else b
            op, b = "Add", b2
        if op == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return [(st, a if a == b else NAN)]
            return [(st, a if isinstance(a, str) else b)]
        if op == "Mul":
            if isinstance(a, str) and isinstance(b, str):
                return [(st, PINF if a == b else NINF)]
            tag, x = (a, b) if isinstance(a, str) else (b, a)
            return [(s1, NAN if g == 0 else tag if g > 0 else flip(tag)) for s1, g in self.sgn(st, x.t)]
        if op == "Div":
            if isinstance(b, str):
                return [(st, NAN if isinstance(a, str) else Fl(ZERO))]
            return [(s1, a if g >= 0 else flip(a)) for s1, g in self.sgn(st, b.t)]
        raise Unsupported("float " + op)

    # ---------------------------------------------------------- terminators
    def term(self, fr, st, t, outs):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            outs.append(Out("ret", st, st.mem.get(("l", fr.fid, 0), UNIT)))
            return []
        if k == "drop":
            return [(t[1], st)] if t[1] is not None else []
        if k in ("unreachable", "resume"):
            outs.append(Out("panic", st, "unreachable block reached"))
            return []
        if k == "switch":
            v = self.operand(fr, st, t[1])
            out = []
            if isinstance(v, T) and v.s == "B":
                tgt = {0: None, 1: None}
                for val, b in t[2]:
                    tgt[val] = b
                for x, truth in self.split(st, v):
                    b = tgt[1 if truth else 0]
                    out.append((b if b is not None else t[3], x))
                return out
            cur = st
            for val, b in t[2]:
                if v.op == "c":
                    if (int(v.a[0]) - val) % 256 == 0 and (int(v.a[0]) == val or int(v.a[0]) < 0):
                        return [(b, cur)]
                    continue
                sides = self.split(cur, eq(v, const(val, "I")))
                cur = None
                for x, truth in sides:
                    if truth:
                        out.append((b, x))
                    else:
                        cur = x
                if cur is None:
                    return out
            if t[3] is not None:
                out.append((t[3], cur))
            return out
        if k == "assert":
            v = self.operand(fr, st, t[1])
            if not t[2]:
                v = neg_b(v)
            out = []
            for x, truth in self.split(st, v):
                if truth:
                    out.append((t[4], x))
                else:
                    outs.append(Out("panic", x, t[3][:60]))
            return out
        if k == "call":
            pl, head, args, target = t[1], t[2], t[3], t[4]
            vals = [self.operand(fr, st, a) for a in args]
            res = self.call(st, head, vals)
            out = []
            for o in res:
                if o.kind == "ret":
                    if target is None:
                        outs.append(Out("panic", o.st, "diverging call returned"))
                        continue
                    root, path = self.place(fr, o.st, pl)
                    self.store(o.st, root, path, o.val)
                    out.append((target, o.st))
                else:
                    outs.append(o)
            return out
        raise Unsupported("terminator " + k)

    def call(self, st, head, vals):
        if head.startswith(("core::panicking", "std::rt::panic", "std::rt::begin_panic", "core::option::unwrap_failed", "core::option::expect_failed")):
            return [Out("panic", st, vals[0].name if vals and isinstance(vals[0], Agg) else head)]
        f = self.find(head)
        if f is not None:
            c = self.contracts.get(f.name)
            if c is not None:
                r = c(self, st, head, vals)
                if r is not None:
                    self.used_contracts.add(f.name)
                    return r
            if f.name in self.noinline:
                raise Unsupported("recursion through " + f.name)
            return self.run(f, vals, st, inline=True)
        r = self.lib.call(self, st, head, vals)
        if r is None:
            raise Unsupported("call of " + head)
        self.used_lib.add(self.lib.short(head))
        return r


RV = {}


class Frame:
    __slots__ = ("f", "fid")

    def __init__(self, f, fid):
        self.f, self.fid = f, fid


def refers(o, k):
    return True


def flip(t):
    return {PINF: NINF, NINF: PINF, NAN: NAN}[t]


def fcmp(op, a, b):
    if a == NAN or b == NAN:
        return TRUE if op == "Ne" else FALSE
    if isinstance(a, Fl) and isinstance(b, Fl):
        x, y = a.t, b.t
        return {"Lt": lambda: lt(x, y), "Le": lambda: le(x, y), "Gt": lambda: lt(y, x), "Ge": lambda: le(y, x),
                "Eq": lambda: eq(x, y), "Ne": lambda: ne(x, y)}[op]()
    r = {NINF: -1, PINF: 1}
    x, y = (r.get(a, 0) if isinstance(a, str) else 0), (r.get(b, 0) if isinstance(b, str) else 0)
    v = {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}[op]
    return TRUE if v else FALSE


def strip_generics(h):
    """remove ::<...> and <...> argument lists, keep <impl ...> and <A as B> heads"""
    out, i = [], 0
    while i < len(h):
        if h.startswith("::<", i) and not h.startswith("::<impl", i):
            j = angle(h, i + 2)
            i = j + 1
            continue
        if h[i] == "<" and i > 0 and not h.startswith("<impl", i) and h[i - 1] != ":" and not h.startswith("<", 0, 1):
            i = angle(h, i) + 1
            continue
        if h.startswith("<impl", i):
            j = angle(h, i)
            out.append(h[i:j + 1])
            i = j + 1
            continue
        out.append(h[i])
        i += 1
    return "".join(out)


def angle(h, i):
    d = 0
    while i < len(h):
        if h[i] == "<":
            d += 1
        elif h[i] == ">" and h[i - 1] != "-":
            d -= 1
            if d == 0:
                return i
        i += 1
    raise Unsupported("angle " + h)


def norm_type(t):
    t = t.strip()
    t = re.sub(r"<.*", "", t).strip()
    return t.split("::")[-1].lstrip("&").strip()


def norm_trait(t):
    t = re.sub(r"<.*", "", t.strip())
    return t.split("::")[-1]


def impl_table(module, repo):
    """(Type, Trait|None) -> list of name prefixes, read from the impl headers the MIR names point at"""
    tab = {}
    seen = {}
    files = {}
    for n in list(module.funcs) + list(module.consts):
        m = re.match(r"(.*<impl at ([\w/.-]+):(\d+):(\d+): (\d+):(\d+)>)", n)
        if not m or m.group(1) in seen:
            continue
        pre, path, l0, c0, l1, c1 = m.groups()
        if path not in files:
            try:
                files[path] = open(repo + "/" + path).read().split("\n")
            except OSError:
                continue
        L = files[path]
        l0, c0, l1, c1 = int(l0), int(c0), int(l1), int(c1)
        if l0 == l1:
            txt = L[l0 - 1][c0 - 1:c1 - 1]
        else:
            txt = " ".join([L[l0 - 1][c0 - 1:]] + L[l0:l1 - 1] + [L[l1 - 1][:c1 - 1]])
        seen[pre] = txt
        txt = txt.strip()
        if txt.startswith("impl"):
            body = txt[4:].strip()
            if body.startswith("<"):
                body = body[angle(body, 0) + 1:].strip()
            body = re.split(r"\bwhere\b", body)[0].strip()
            k = re.search(r"\bfor\b", body)
            if k:
                tr, ty = body[:k.start()].strip(), body[k.end():].strip()
                tab.setdefault((norm_type(ty), norm_trait(tr)), []).append(pre)
            else:
                tab.setdefault((norm_type(body), None), []).append(pre)
        else:
            # derive: the header is the trait's name; the type comes from the parameter
            for f in module.funcs.values():
                if f.name.startswith(pre + "::") and f.params:
                    ty = norm_type(f.params[0][1].replace("&", "").replace("mut ", ""))
                    tab.setdefault((ty, norm_trait(txt)), []).append(pre)
                    break
    return tab, seen


# ------------------------------------------------------------------ control flow
def loop_heads(f):
    h = getattr(f, "types").get("__heads")
    if h is not None:
        return h
    heads, color = set(), {}
    stack = [(0, iter(f.succs(0)))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in f.blocks:
                continue
            if color.get(s) == 1:
                heads.add(s)
            elif s not in color:
                color[s] = 1
                stack.append((s, iter(f.succs(s))))
                break
        else:
            color[b] = 2
            stack.pop()
    f.types["__heads"] = heads
    return heads


def loop_body(f, head):
    """blocks of the natural loops with this head"""
    preds = {}
    for b in f.blocks:
        for s in f.succs(b):
            preds.setdefault(s, []).append(b)
    # back edges: predecessors reachable from head
    reach, work = set(), [head]
    while work:
        b = work.pop()
        for s in f.succs(b):
            if s in f.blocks and s not in reach:
                reach.add(s)
                work.append(s)
    body, work = {head}, [p for p in preds.get(head, []) if p in reach]
    while work:
        b = work.pop()
        if b in body:
            continue
        body.add(b)
        work += preds.get(b, [])
    return body & (reach | {head})


def place_uses(pl, deref_base=True):
    u = {pl[0]} if pl[1] else set()
    for p in pl[1]:
        if p[0] == "i":
            u.add(p[1])
    return u


def op_uses(o):
    if o[0] == "place":
        return {o[1][0]} | place_uses(o[1])
    return set()


def rv_uses(rv):
    k = rv[0]
    if k in ("use", "repeat"):
        return op_uses(rv[1])
    if k == "bin":
        return op_uses(rv[2]) | op_uses(rv[3])
    if k == "un":
        return op_uses(rv[2])
    if k in ("discr", "len", "ref"):
        return {rv[1][0]} | place_uses(rv[1])
    if k == "cast":
        return op_uses(rv[1])
    if k in ("array", "tuple"):
        return set().union(*[op_uses(o) for o in rv[1]]) if rv[1] else set()
    if k == "closure":
        return set().union(*[op_uses(o) for o in rv[2]]) if rv[2] else set()
    if k == "adt":
        return set().union(*[op_uses(o) for _, o in rv[2]]) if rv[2] else set()
    return set()


def liveness(f):
    """locals live at the start of each block; anything whose address is taken counts as live throughout"""
    addr = set()
    use, defs = {}, {}
    for b, (stmts, t) in f.blocks.items():
        u, d = set(), set()
        for s in stmts:
            if s[0] == "setdiscr":
                u |= {s[1][0]} - d
                continue
            rv = mirp.parse_rvalue(s[2])
            if rv[0] == "ref" and not any(p[0] == "*" for p in rv[1][1]):
                addr.add(rv[1][0])
            u |= rv_uses(rv) - d
            if s[1][1]:
                u |= ({s[1][0]} | place_uses(s[1])) - d
            else:
                d.add(s[1][0])
        if t[0] == "switch":
            u |= op_uses(t[1]) - d
        elif t[0] == "assert":
            u |= op_uses(t[1]) - d
        elif t[0] == "call":
            for o in t[3]:
                u |= op_uses(o) - d
            if t[1][1]:
                u |= {t[1][0]} - d
            else:
                d.add(t[1][0])
        elif t[0] == "return":
            u |= {0} - d
        use[b], defs[b] = u, d
    live = {b: set() for b in f.blocks}
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            o = set()
            for s in f.succs(b):
                o |= live.get(s, set())
            n = use[b] | (o - defs[b])
            if n != live[b]:
                live[b] = n
                ch = True
    return {b: live[b] for b in f.blocks}
