"""Fills the generated sections of DESIGN.md (run by hand)."""
import glob, importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
out = ["<!-- props -->", "## Per property", "", "| id | decided over | cases | outside the bounds | quick wall |", "|---|---|---|---|---|"]
for q in props:
    m = importlib.import_module("checks." + q["id"].lower())
    ev = {}
    try:
        ev = json.load(open(V + "/evidence/%s.json" % q["id"]))
    except Exception:
        pass
    bs = []
    for c in m.CASES:
        b = c.get("bounds", "")
        if b not in bs:
            bs.append(b)
    out.append("| %s %s | %s | %d: %s | %s | %s s |" % (q["id"], q["title"], q["quantifier"]["text"], len(m.CASES), "; ".join(bs)[:260], getattr(m, "OUTSIDE", ""), round(ev.get("wall_s", 0))))
out += ["", "Why this reaches what the tests cannot: the tests evaluate stored points; each case above covers every value in its range, including branch edges, axes, ties and",
        "sign combinations, and repeated calls.", "<!-- /props -->"]
seeds = ["<!-- seeds -->", "## Planted bugs and what catches them", "", "| seed | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    seeds.append("| %s | %s | %s: %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], caught.get(i, "?")))
seeds.append("<!-- /seeds -->")
s = open(V + "/DESIGN.md").read()
for tag, mark, body in (("props", "@@PROPS@@", out), ("seeds", "@@SEEDS@@", seeds)):
    s = s.replace(mark, "<!-- %s -->\n<!-- /%s -->" % (tag, tag))
    a, b = s.index("<!-- %s -->" % tag), s.index("<!-- /%s -->" % tag) + len("<!-- /%s -->" % tag)
    s = s[:a] + "\n".join(body) + s[b:]
open(V + "/DESIGN.md", "w").write(s)
