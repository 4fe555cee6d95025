"""Client of the replay server: evaluates the real, compiled crate."""
import os, struct, subprocess, select, threading, queue, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
INTS = {("Binomial", 0), ("Binomial.with_failure", 0), ("Default", 0)}


def bits(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", float(x)))[0]


def unbits(s):
    return struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0]


def cargo_env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("RUSTUP_TOOLCHAIN", "stable")
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    return e


def build():
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "replay")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "replay"),
                       env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("replay crate does not build against /repo:\n" + r.stderr[-4000:])
    return os.path.join(TARGET, "replay", "debug", "replay")


class Server:
    """One process; requests answered in order; a hang is reported as ('hang',)."""

    def __init__(self, exe, timeout=10.0):
        self.exe, self.timeout, self.p = exe, timeout, None
        self.calls = 0

    def _start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)
        self.buf = b""

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def _readline(self):
        end = time.time() + self.timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return None
            c = os.read(self.p.stdout.fileno(), 1 << 16)
            if not c:
                return b"panic aborted"
            self.buf += c
        l, self.buf = self.buf.split(b"\n", 1)
        return l

    def raw(self, lines):
        out = []
        i = 0
        while i < len(lines):
            if self.p is None:
                self._start()
            chunk = lines[i:i + 200]
            try:
                self.p.stdin.write(("\n".join(chunk) + "\n").encode())
            except BrokenPipeError:
                self.close()
                out.append("panic aborted")
                i += 1
                continue
            for k in range(len(chunk)):
                l = self._readline()
                self.calls += 1
                if l is None:
                    self.close()
                    out.append("hang")
                    i += 1
                    break
                out.append(l.decode())
                i += 1
                if l == b"panic aborted":
                    self.close()
                    break
        return out

    @staticmethod
    def line(fam, method, params, arg=None, stream=None):
        ps = []
        for k, v in enumerate(params):
            ps.append(str(int(v)) if (fam, k) in INTS else bits(v))
        if method in ("mass", "massb", "independent", "repeated", "hist", "iterator") or fam == "Default":
            a = "" if arg is None else str(int(arg))
        else:
            a = "" if arg is None else bits(arg)
        l = "%s %s %s %s" % (fam, method, ";".join(ps), a)
        if stream is not None:
            l += " " + ",".join("%x" % w for w in stream)
        return l

    INT_RESULT = {"inverse": {"Bernoulli", "Binomial", "Categorical"}, "modes": {"Bernoulli", "Binomial", "Categorical"},
                  "sample": {"Bernoulli", "Binomial", "Categorical"}, "independent": {"Bernoulli", "Binomial", "Categorical"},
                  "repeated": {"Bernoulli", "Binomial", "Categorical"}, "n": {"Binomial"}, "k": {"Categorical"}, "u64": {"Source"}}

    @classmethod
    def parse(cls, fam, method, s):
        t = s.split(" ")
        if t[0] != "ok":
            return (t[0], " ".join(t[1:]))
        if method in ("hist", "iterator"):
            return ("ok", [int(x) for x in t[1:]])
        isint = fam.split(".")[0] in cls.INT_RESULT.get(method, ()) or fam == "Default"
        v = []
        toks = [x for x in t[1:] if x != ""]
        for j, x in enumerate(toks):
            if method in ("sample", "independent", "repeated") and j == len(toks) - 1:
                v.append(int(x))
            elif x == "none":
                v.append(None)
            else:
                v.append(int(x) if isint or len(x) != 16 else unbits(x))
        return ("ok", v)

    def many(self, reqs):
        """reqs: list of (fam, method, params, arg[, stream])"""
        ls = [self.line(*r) for r in reqs]
        return [self.parse(r[0], r[1], o) for r, o in zip(reqs, self.raw(ls))]

    def one(self, fam, method, params, arg=None, stream=None):
        return self.many([(fam, method, params, arg, stream)])[0]
