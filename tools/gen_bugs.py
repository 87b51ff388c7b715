"""tools/design/bugs.md from seeded/*/meta.json and what happened the first time each bug was run (bug_history.json)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = json.load(open(os.path.join(V, "tools", "design", "bug_history.json")))
out = ["""Each planted bug was written from the property and the code, then confirmed: the stable tests still pass, the
demonstration passes on the unchanged tree and fails with the patch. The check named is the one for its property
(`quick`, seed 1); "first missed" says which part of the check was added because of it. The bugs in `seeded/` are
complemented by throw-away mutants (about 150, not kept) that were run the same way, and by behaviour-preserving
rewrites of every module (see the last section) that must stay quiet.

| bug | check | needs | history |
|---|---|---|---|"""]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    k = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append(f"| {k} | {m['property']} | {m['needs']} | {H.get(k, 'caught at once')} |")
open(os.path.join(V, "tools", "design", "bugs.md"), "w").write("\n".join(out) + "\n")
