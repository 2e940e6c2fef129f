"""Writes DESIGN.md: the text of design_head.md, one entry per property made from properties.jsonl and claims.py, the text of design_tail.md."""
import json, os
import claims
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(D)
BOUND = json.load(open(D + "/design_bounds.json"))
out = [open(D + "/design_head.md").read().rstrip(), ""]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    out.append(f"### {i} {p['title']}")
    if i in claims.NA: out += [f"Not applicable: {claims.NA[i]}.", ""]; continue
    c = claims.CLAIMS[i]
    out.append(f"* Decided by: {', '.join(a + ' (' + claims.ANALYSES[a]['text'] + ')' for a in c['analyses'])}.")
    out.append(f"* Rule and oracle: {c['rule']}")
    b = [BOUND[a] for a in c["analyses"] if a in BOUND]
    out.append(f"* Bounds and cost: " + " ".join(b))
    out.append(f"* Beyond tests: {p['why_tests_cant']} Quantified over {p['quantifier']['text']}.")
    out.append("")
out.append(open(D + "/design_tail.md").read().rstrip())
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
