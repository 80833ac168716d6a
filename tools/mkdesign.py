"""fills the generated parts of DESIGN.md: number of repairs, table of planted bugs"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
n = len({json.loads(l)["commit"] for l in open(os.path.join(V, "known_findings.jsonl")) if json.loads(l).get("status") == "fixed"})
s = re.sub("<!--NFIX-->.*?<!--/NFIX-->", "<!--NFIX-->%d<!--/NFIX-->" % n, s, flags=re.S)
rows = ["| planted change | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m.get("caught_by", m["property"])))
s = re.sub("<!--SEEDS-->.*?<!--/SEEDS-->", lambda _: "<!--SEEDS-->\n%s\n<!--/SEEDS-->" % "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
