"""check.py <property>: decides one property on /repo's current working tree.

1. compiles /repo (debug assertions on) together with the replay crate;
2. dumps the compiler's MIR of /repo, symbolically executes the functions under
   contract and discharges their obligations (prove.py);
3. evaluates the same contracts at run time on the real crate (rac.py, rac2.py):
   search for failing inputs and bounded stand-in for what 2 leaves open;
4. writes evidence/<property>.json; a violation gives a replay file and exit 1."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import real, rac, rac2, verdict   # noqa


def known_findings():
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(t.split("=", 1) for t in l.split(" ")[1:3])
                d["text"] = l.split(" ", 3)[3]
                out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    exe = real.build()
    srv = real.Server(exe)
    pr = verdict.Report()
    t1 = time.time()
    try:
        verdict.prove(pid, srv, seed, tier, pr)
    except Exception as e:   # noqa   the engine's own limits never raise an alarm
        pr.notes.append("deductive engine stopped: %s: %s" % (type(e).__name__, e))
        pr.open.append(dict(obligation="the remaining obligations", what=pr.notes[-1][:400], back_end="unsupported"))
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    t2 = time.time()
    ctx = rac.Ctx(srv, seed, tier, pr.lits, pid)
    ctx.targets = pr.targets
    f = getattr(rac, pid, None) or getattr(rac2, pid)
    f(ctx)
    srv.close()
    t3 = time.time()
    viol = pr.violations + ctx.viol
    # an obligation that the verifier could not discharge is a violation even where no input of the real crate shows it
    if not viol:
        viol = [dict(why="obligation not discharged", **e) for e in pr.refuted + pr.open if e.get("failing")]
    kf = [k for k in known_findings() if k["property"] == pid]
    # a listed finding suppresses nothing but the failure it names (F1 and F2 are
    # recognised by their exact input or call site, in rac.median_bad and oracle.f2_factor)
    for k in kf:
        hit = ctx.known.get(k["id"]) or rac.oracle.KNOWN.get(k["id"])
        print("KNOWN-FINDING: property=%s %s%s" % (pid, k["text"], "" if hit else " (not met in this run)"))
    ev = verdict.evidence(pid, tier, seed, pr, ctx, viol, dict(build=t1 - t0, prove=t2 - t1, rac=t3 - t2))
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d obligations, %d discharged, %d bounded by design, %d refuted, %d not decided; %d contract evaluations on the real crate; %.1f s"
          % (pid, tier, pr.total, pr.done, len(pr.bounded), len(pr.refuted), len(pr.open), ctx.n, time.time() - t0))
    for e in (pr.refuted + pr.open)[:8]:
        print("  %s: %s" % ("refuted" if e in pr.refuted else "not decided", str(e["obligation"])[:200]))
    if viol:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + ".json")
        json.dump({"property": pid, "violations": viol[:50], "failed_obligations": (pr.refuted + pr.open)[:200],
                   "replay": "python3-vt engine/replay.py " + os.path.relpath(p, ROOT)}, open(p, "w"), indent=1, default=str)
        for v in viol[:5]:
            print("  violated:", json.dumps(v, default=str)[:600])
        found = any(v.get("request") for v in viol)
        print("VIOLATION property=%s replay=%s%s" % (pid, p, "" if found else " no-failing-input-found"))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
