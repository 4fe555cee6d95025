"""Re-runs the failing inputs of a replay file on the real crate."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import real
d = json.load(open(sys.argv[1]))
srv = real.Server(real.build())
for v in d["violations"]:
    q = v.get("request")
    if not q:
        print("no failing input:", json.dumps(v)[:2000])
        continue
    ps = q["params"]
    out = srv.one(q["family"], q["method"], ps, q.get("arg"), q.get("stream"))
    print(q["family"], q["method"], ps, q.get("arg"), "->", out, "| expected", v.get("want"), "|", v.get("why"))
srv.close()
