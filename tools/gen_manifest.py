"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = (
    "Shows the property on every execution observed, not on all inputs. Trusts the harness's oracle (an independent "
    "float64 reference or the recorded trace), JAX, NumPy and the interpreter."
)
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    fn = os.path.join(V, "checks", p.lower() + ".py")
    if not os.path.exists(fn):
        na.append(dict(property=p, reason="no check registered yet; the family applies, see DESIGN.md"))
        continue
    tree = ast.parse(open(fn).read())
    consts = {
        n.targets[0].id: n.value for n in tree.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)
    }
    level = ast.literal_eval(consts["LEVEL"]) if "LEVEL" in consts else "exploration"
    rule = ast.literal_eval(consts["RULE"])
    assume = ast.literal_eval(consts["ASSUMPTIONS"]) if "ASSUMPTIONS" in consts else []
    doc = " ".join(ast.get_docstring(tree).split("\n\n")[0].split())
    note = f"{TRUST} Counted cases: {rule}." + (f" Assumes: {'; '.join(assume)}." if assume else "")
    checks.append(
        dict(
            property=p,
            quick_cmd=f"./run_check {p} quick",
            thorough_cmd=f"./run_check {p} thorough",
            technique="runtime monitoring: " + doc,
            level=level,
            level_note=note,
        )
    )
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
