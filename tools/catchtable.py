"""Rewrites the catch table of DESIGN.md section 7 from outputs of tools/plant.py: catchtable.py OUT... (later files win)."""
import ast, glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for name in sys.argv[1:]:
    for line in open(name):
        w = line.split(None, 3)
        if len(w) == 4 and w[2] == "valid" and w[3].startswith("{"):
            res.setdefault(w[0], {}).update(ast.literal_eval(w[3].strip()))
rows = {}
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    i, prop = os.path.basename(os.path.dirname(m)), json.load(open(m))["property"]
    got = res.get(i, {})
    mark = "" if got.get(prop) == "CAUGHT" else " (by %s)" % ", ".join(k for k, v in got.items() if v == "CAUGHT") if "CAUGHT" in got.values() else " (?)" if not got else " (missed)"
    rows.setdefault(prop, []).append(i + mark)
table = "| check | planted bugs it catches |\n|---|---|\n" + "".join("| %s | %s |\n" % (p, ", ".join(r)) for p, r in sorted(rows.items()))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
a, b = "<!-- catch table -->\n", "<!-- end -->\n"
i, j = text.index(a) + len(a), text.index(b)
open(path, "w").write(text[:i] + table + text[j:])
print(sum(map(len, rows.values())), "bugs;", table.count("(?)"), "unknown;", table.count("(missed)"), "missed")
