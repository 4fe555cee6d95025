"""Extraction: the compiler's MIR of /repo's current source, parsed.

The text comes from the same stable rustc that builds the crate
(`--emit=mir -Zmir-opt-level=0`), on every run.  Nothing is rewritten by hand.
Dropped on the way: StorageLive/StorageDead, retags, debug info, the cleanup
(unwind) blocks and type ascriptions that the executor does not need.
"""
import fcntl, os, re, subprocess, glob, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
REPO = os.environ.get("VERIF_REPO", "/repo")


class MirError(Exception):
    pass


def dump():
    """Return the MIR text of the crate as compiled now."""
    d = os.path.join(TARGET, "mir")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lock:   # one extraction at a time
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _dump(d)


def _dump(d):
    env = dict(os.environ)
    env.update(RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d)
    env["RUSTUP_TOOLCHAIN"] = "stable"
    env.pop("RUSTFLAGS", None)
    env.pop("RUSTC_WRAPPER", None)
    for f in glob.glob(os.path.join(d, "debug", "deps", "probability-*")):
        os.unlink(f)
    for f in glob.glob(os.path.join(d, "debug", ".fingerprint", "probability-*")):
        subprocess.run(["rm", "-rf", f])
    cmd = ["cargo", "rustc", "--lib", "--offline", "--quiet", "--", "--emit=mir", "-Zmir-opt-level=0",
           "-Ztrim-diagnostic-paths=no", "-Awarnings"]
    r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
    fs = glob.glob(os.path.join(d, "debug", "deps", "probability-*.mir"))
    if r.returncode != 0 or len(fs) != 1:
        raise MirError("cannot extract MIR: " + r.stderr[-2000:])
    return open(fs[0]).read()


# ---------------------------------------------------------------- low level
OPEN, CLOSE = "([{", ")]}"


def split_top(s, sep=","):
    """Split at top-level separators, honouring (), [], {}, <> and strings."""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    ang = 0
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            cur.append(s[i:j + 1])
            i = j + 1
            continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == "\\"):
            j = s.index("'", i + 2)
            cur.append(s[i:j + 1])
            i = j + 1
            continue
        if c in OPEN:
            depth += 1
        elif c in CLOSE:
            depth -= 1
        elif c == "<":
            ang += 1
        elif c == ">" and s[i - 1] not in "-=":
            ang -= 1
        if c == sep and depth == 0 and ang == 0:
            out.append("".join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    t = "".join(cur).strip()
    if t:
        out.append(t)
    return out


def match_fwd(s, i):
    """Index of the bracket closing s[i]."""
    depth, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c in OPEN:
            depth += 1
        elif c in CLOSE:
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise MirError("unbalanced: " + s[:80])


def last_group(s):
    """s ends with ')': return (head, inside) of its last top-level group."""
    i, start = 0, None
    while i < len(s):
        if s[i] == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
            i += 1
            continue
        if s[i] in OPEN:
            j = match_fwd(s, i)
            if s[i] == "(":
                start = (i, j)
            i = j + 1
            continue
        i += 1
    if start is None or start[1] != len(s) - 1:
        raise MirError("no call group: " + s[:120])
    return s[:start[0]].strip(), s[start[0] + 1:start[1]]


# ---------------------------------------------------------------- places
def parse_place(s):
    """(local, projections); projection: ('*',) ('f', n, ty) ('as', name) ('i', local) ('ci', n, from_end)"""
    s = s.strip()
    p, rest = _place(s)
    if rest.strip():
        raise MirError("place: " + s)
    return p


def _place(s):
    m = re.match(r"_(\d+)", s)
    if m:
        base, rest = (int(m.group(1)), ()), s[m.end():]
    elif s.startswith("(*"):
        j = match_fwd(s, 0)
        p, r = _place(s[2:j])
        if r.strip():
            raise MirError("deref: " + s)
        base, rest = (p[0], p[1] + (("*",),)), s[j + 1:]
    elif s.startswith("("):
        j = match_fwd(s, 0)
        p, r = _place(s[1:j])
        m = re.match(r"\.(\d+): (.*)$", r, re.S)
        m2 = re.match(r" as (\w+)$", r)
        m3 = re.match(r" as variant#(\d+)$", r)
        if m:
            base = (p[0], p[1] + (("f", int(m.group(1)), m.group(2)),))
        elif m2:
            base = (p[0], p[1] + (("as", m2.group(1)),))
        elif m3:
            base = (p[0], p[1] + (("as", int(m3.group(1))),))
        else:
            raise MirError("projection: " + s)
        rest = s[j + 1:]
    else:
        raise MirError("place? " + s)
    while rest.startswith("["):
        j = match_fwd(rest, 0)
        inner = rest[1:j]
        m = re.match(r"_(\d+)$", inner)
        m2 = re.match(r"(-?)(\d+) of (\d+)$", inner)
        if m:
            base = (base[0], base[1] + (("i", int(m.group(1))),))
        elif m2:
            base = (base[0], base[1] + (("ci", int(m2.group(2)), bool(m2.group(1))),))
        else:
            raise MirError("index: " + s)
        rest = rest[j + 1:]
    return base, rest


def parse_operand(s):
    s = s.strip()
    if s.startswith("no_retag "):
        s = s[9:]
    if s.startswith("copy ") or s.startswith("move "):
        return ("place", parse_place(s[5:]))
    if s.startswith("const "):
        return ("const", s[6:].strip())
    if re.match(r"[\w<][\w:<>, &'\[\]{}]*$", s):
        return ("const", "fn " + s)     # a function passed as a value
    raise MirError("operand: " + s)


BINOPS = {"Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Lt", "Le", "Gt", "Ge", "Eq",
          "Ne", "AddWithOverflow", "SubWithOverflow", "MulWithOverflow", "Offset", "Cmp", "AddUnchecked",
          "SubUnchecked", "MulUnchecked", "ShlUnchecked", "ShrUnchecked"}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith("no_retag "):
        s = s[9:]
    m = re.match(r"(\w+)\(", s)
    if m and match_fwd(s, m.end() - 1) == len(s) - 1:
        name, inner = m.group(1), s[m.end():-1]
        if name in BINOPS:
            a, b = split_top(inner)
            return ("bin", name, parse_operand(a), parse_operand(b))
        if name in ("Not", "Neg", "PtrMetadata"):
            return ("un", name, parse_operand(inner))
        if name == "discriminant":
            return ("discr", parse_place(inner))
        if name == "Len":
            return ("len", parse_place(inner))
        if name == "CopyForDeref":
            return ("use", ("place", parse_place(inner)))
    if s.startswith(("copy ", "move ", "const ")):
        # operand, or a cast of it
        k = find_as(s)
        if k is not None:
            return k
        return ("use", parse_operand(s))
    if s.startswith("&raw "):
        m = re.match(r"&raw (?:const|mut) (.*)$", s, re.S)
        return ("ref", parse_place(strip_paren(m.group(1))), True)
    if s.startswith("&"):
        t = s[1:]
        t = re.sub(r"^(mut |fake shallow |fake |\(two_phase\) )", "", t)
        return ("ref", parse_place(t), s.startswith("&mut"))
    if s.startswith("["):
        inner = s[1:match_fwd(s, 0)]
        parts = split_top(inner, ";")
        if len(parts) == 2:
            return ("repeat", parse_operand(parts[0]), parts[1])
        return ("array", [parse_operand(x) for x in split_top(inner)])
    if s.startswith("("):
        inner = s[1:match_fwd(s, 0)]
        return ("tuple", [parse_operand(x) for x in split_top(inner)])
    if s.startswith("{closure@"):
        j = match_fwd(s, 0)
        name, rest = s[:j + 1], s[j + 1:].strip()
        caps = []
        if rest.startswith("{"):
            for f in split_top(rest[1:-1]):
                caps.append(parse_operand(f.split(":", 1)[1]))
        return ("closure", name, caps)
    # aggregates
    if s.endswith("}"):
        depth_start = None
        i = 0
        while i < len(s):
            if s[i] in OPEN:
                j = match_fwd(s, i)
                if s[i] == "{" and j == len(s) - 1:
                    depth_start = i
                i = j + 1
            else:
                i += 1
        path, inner = s[:depth_start].strip(), s[depth_start + 1:-1]
        fs = []
        for f in split_top(inner):
            nm, op = f.split(":", 1)
            fs.append((nm.strip(), parse_operand(op)))
        return ("adt", path, fs)
    if s.endswith(")"):
        head, inner = last_group(s)
        return ("adt", head, [(str(i), parse_operand(x)) for i, x in enumerate(split_top(inner))])
    if re.match(r"[\w:<>\[\]{}@/.,; &'()-]+$", s):
        return ("adt", s, [])
    raise MirError("rvalue: " + s)


def find_as(s):
    """`OPERAND as TYPE (Kind)`"""
    m = re.match(r"(.*) \((\w+(?:\([^()]*(?:\([^()]*\))?[^()]*\))?)\)$", s, re.S)
    if not m:
        return None
    body, kind = m.group(1), m.group(2)
    i = 0
    while i < len(body):
        if body[i] in OPEN:
            i = match_fwd(body, i) + 1
            continue
        if body.startswith(" as ", i):
            try:
                return ("cast", parse_operand(body[:i]), body[i + 4:], kind)
            except MirError:
                return None
        i += 1
    return None


def strip_paren(s):
    return s


class Func:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.types, self.blocks, self.cleanup = {}, {}, set()
        self.names = {}
        self.header = ""

    def succs(self, b):
        return term_targets(self.blocks[b][1])


def term_targets(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k in ("call", "assert", "drop"):
        return [t[-1]] if t[-1] is not None else []
    return []


def parse_targets(s):
    m = re.search(r"(?:return|success|real): bb(\d+)", s)
    return int(m.group(1)) if m else None


def parse_block(lines):
    stmts, term = [], None
    for ln in lines:
        s = ln.strip()
        if not s or s.startswith("//"):
            continue
        if not s.endswith(";"):
            raise MirError("stmt without ;: " + s)
        s = s[:-1]
        if s.startswith(("StorageLive", "StorageDead", "nop", "FakeRead", "PlaceMention", "AscribeUserType", "Retag",
                         "Coverage", "ConstEvalCounter", "BackwardIncompatibleDropHint")):
            continue
        if s.startswith("goto -> "):
            term = ("goto", int(s[10:]))
        elif s == "return":
            term = ("return",)
        elif s == "unreachable":
            term = ("unreachable",)
        elif s == "resume" or s.startswith("terminate"):
            term = ("resume",)
        elif s.startswith("switchInt("):
            j = match_fwd(s, 9)
            op = parse_operand(s[10:j])
            tg = s[s.index("[", j) + 1:-1]
            cases, other = [], None
            for t in split_top(tg):
                k, b = t.rsplit(": bb", 1)
                if k.strip() == "otherwise":
                    other = int(b)
                else:
                    cases.append((int(k), int(b)))
            term = ("switch", op, cases, other)
        elif s.startswith("assert("):
            j = match_fwd(s, 6)
            parts = split_top(s[7:j])
            c = parts[0]
            exp = True
            if c.startswith("!"):
                c, exp = c[1:], False
            term = ("assert", parse_operand(c), exp, parts[1] if len(parts) > 1 else "", parse_targets(s[j:]))
        elif s.startswith("drop("):
            j = match_fwd(s, 4)
            term = ("drop", parse_targets(s[j:]))
        elif s.startswith("falseEdge") or s.startswith("falseUnwind"):
            term = ("goto", int(re.search(r"real: bb(\d+)", s).group(1)))
        elif " -> " in s and re.search(r" -> (\[return|unwind|bb)", s) and " = " in s:
            k = s.rindex(" -> ")
            left, tail = s[:k], s[k + 4:]
            lhs, rhs = left.split(" = ", 1)
            head, inner = last_group(rhs)
            term = ("call", parse_place(lhs), head, [parse_operand(x) for x in split_top(inner)], parse_targets(tail))
        elif " = " in s:
            lhs, rhs = s.split(" = ", 1)
            if lhs.startswith("discriminant("):
                stmts.append(("setdiscr", parse_place(lhs[13:-1]), int(rhs)))
            else:
                stmts.append(("assign", parse_place(lhs), rhs))
        else:
            raise MirError("stmt: " + s)
    return stmts, term


class Module:
    def __init__(self, text):
        self.text = text
        self.funcs = {}
        self.errors = {}
        self.consts = {}
        self.impls = {}
        self._parse(text)
        self.hash = hashlib.sha256(text.encode()).hexdigest()

    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith(("fn ", "const ", "static ", "promoted")):
                if ln.rstrip().endswith("{"):
                    j = i + 1
                    while lines[j] != "}":
                        j += 1
                    self._item(ln, lines[i + 1:j])
                    i = j + 1
                    continue
                m = re.match(r"(?:const|static(?: mut)?) (.*?): ([^=]*) = const (.*);$", ln)
                if m:
                    # the name itself may contain ": " inside impl locations
                    k = ln.rindex(" = const ")
                    head = ln[6:k]
                    nm = head[:head.rindex(": ")]
                    self.consts[nm] = ("lit", ln[k + 9:-1])
            i += 1

    def _item(self, head, body):
        isfn = head.startswith("fn ")
        try:
            if isfn:
                h = head[3:].rstrip()[:-1].rstrip()
                # NAME(params) -> RET
                i, grp = 0, None
                while i < len(h):
                    if h[i] in OPEN:
                        j = match_fwd(h, i)
                        if h[i] == "(" and (h.startswith("(_1", i) or h.startswith("()", i)):
                            grp = (i, j)
                            break
                        i = j + 1
                    else:
                        i += 1
                name = h[:grp[0]]
                params = []
                for p in split_top(h[grp[0] + 1:grp[1]]):
                    a, t = p.split(":", 1)
                    params.append((int(a.strip()[1:]), t.strip()))
                ret = h[grp[1] + 1:].strip()
                ret = ret[2:].strip() if ret.startswith("->") else "()"
            else:
                h = head.rstrip()
                h = re.sub(r"^(const|static mut|static) ", "", h)
                h = h[:h.rindex(" = {")]
                k = h.rindex(": ")
                # closing types may contain ': ' only in impl paths of the name; take first ': ' after '>' balanced
                name, ret = split_name_type(h)
                params = []
        except Exception as e:  # noqa
            self.errors[head] = repr(e)
            return
        f = Func(name, params, ret)
        f.header = head
        for n, t in params:
            f.types[n] = t
        cur, curname = None, None
        try:
            for ln in body:
                s = ln.strip()
                m = re.match(r"let (?:mut )?_(\d+): (.*);$", s)
                if m and cur is None:
                    f.types[int(m.group(1))] = m.group(2)
                    continue
                m = re.match(r"debug ([\w#]+) => (.*);$", s)
                if m and cur is None:
                    f.names.setdefault(m.group(1), m.group(2))
                    continue
                m = re.match(r"bb(\d+)( \(cleanup\))?: \{$", s)
                if m:
                    cur, curname = [], int(m.group(1))
                    if m.group(2):
                        f.cleanup.add(curname)
                    continue
                if s == "}" and cur is not None:
                    if curname not in f.cleanup:
                        st, tm = parse_block(cur)
                        f.blocks[curname] = (st, tm)
                    cur = None
                    continue
                if cur is not None:
                    cur.append(ln)
        except MirError as e:
            self.errors[name] = str(e)
            f.blocks = None
        if isfn:
            self.funcs[name] = f
        else:
            self.consts[name] = ("body", f)


def split_name_type(h):
    depth = 0
    i = 0
    while i < len(h):
        c = h[i]
        if c in OPEN:
            i = match_fwd(h, i) + 1
            continue
        if c == "<":
            depth += 1
        elif c == ">" and h[i - 1] != "-":
            depth -= 1
        elif c == ":" and depth == 0 and h.startswith(": ", i) and h[i - 1] != ":":
            return h[:i], h[i + 2:]
        i += 1
    raise MirError("name/type: " + h)


if __name__ == "__main__":
    import sys
    m = Module(open(sys.argv[1]).read() if len(sys.argv) > 1 else dump())
    print(len(m.funcs), len(m.consts), "errors:", m.errors)
    bad = 0
    for f in m.funcs.values():
        for b, (st, t) in (f.blocks or {}).items():
            for s in st:
                if s[0] == "assign":
                    try:
                        parse_rvalue(s[2])
                    except Exception as e:  # noqa
                        bad += 1
                        print("RV", f.name, s[2], e)
            if t is None:
                print("no term", f.name, b)
    print("bad", bad)
