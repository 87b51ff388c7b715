"""DESIGN.md from tools/design/*.md and the check modules."""
import json, os, ast, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "tools", "design")
frame = open(os.path.join(D, "frame.md")).read()
props = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    fn = os.path.join(D, p["id"] + ".md")
    txt = open(fn).read().strip() if os.path.exists(fn) else ""
    c = os.path.join(V, "checks", p["id"].lower() + ".py")
    doc = ast.get_docstring(ast.parse(open(c).read())) if os.path.exists(c) else "(check not written yet)"
    props.append(f"### {p['id']} {p['title']}\n{doc}\n\n{txt}\n".rstrip() + f"\n\nWhy tests cannot: {p['why_tests_cant']}\n")
fixes = [json.loads(l) for l in open(os.path.join(V, "known_findings.jsonl"))]
ft = "\n".join(f"* {d['property']} `{d['commit']}` {d['what']}" for d in fixes if d["status"] == "fixed")
def rd(n):
    fn = os.path.join(D, n)
    return open(fn).read().strip() if os.path.exists(fn) else "(none yet)"
out = frame.replace("@PROPS@", "\n".join(props)).replace("@FIXES@", ft).replace("@BUGS@", rd("bugs.md")).replace("@ALARMS@", rd("alarms.md"))
open(os.path.join(V, "DESIGN.md"), "w").write(out)
