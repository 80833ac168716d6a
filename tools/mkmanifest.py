"""writes MANIFEST.json from the list of built checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CLAIMS:
        t, n = CLAIMS[i]
        own = "sa/c_%s.py" % i.lower()
        cmd = "python3 " + (own if os.path.exists(os.path.join(V, own)) else "sa/c_rel.py " + i)
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd,
                       "technique": t, "level": "other", "level_note": n})
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in CLAIMS]
json.dump({"version": 1, "setup_cmd": "python3 sa/selftest.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
