"""DESIGN.md from DESIGN.in.md, properties.jsonl, known_findings.txt, design_props.py, seeded/ and catches.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, os.path.join(V, "lib"))
import design_props, props
ps = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = []
for p in ps:
    i = p["id"]
    spec, rep, bounds = design_props.TEXT[i]
    ms = ", ".join("`%s`" % m["name"] for m in props.MODELS.get(i, []))
    out.append("### %s %s\n\n* Specified: %s\n* Replayed and validated: %s\n* Models in the check: %s. Bounds: %s\n" % (i, p["title"], spec, rep, ms or "none (trace validation only)", bounds))
fx = []
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith("fixed:"):
        _, pr, c, t = l.split(None, 3)
        fx.append("* %s `%s` %s" % (pr.split("=")[1], c, t.strip()))
cat = {}
f = os.path.join(V, "tools", "catches.json")
if os.path.exists(f):
    cat = json.load(open(f))
bugs = ["| bug | property | caught by (quick) | what it breaks |", "|---|---|---|---|"]
sd = os.path.join(V, "seeded")
for b in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, b, "meta.json")))
    bugs.append("| %s | %s | %s | %s |" % (b, m["property"], cat.get(b, m["property"]), m["what_it_breaks"]))
t = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
for k, v in (("PROPS", "\n".join(out)), ("FIXES", "\n".join(fx)), ("BUGS", "\n".join(bugs))):
    t = t.replace("@@%s@@" % k, v)
assert "@@" not in t, t[t.index("@@"):][:50]
open(os.path.join(V, "DESIGN.md"), "w").write(t)
