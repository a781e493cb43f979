"""design.py : write DESIGN.md from tools/design_head.md, the rule modules and tools/design_tail.md."""
import ast
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "rules")]
LIMIT = json.load(open(os.path.join(V, "tools", "limits.json")))
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), ""]
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(V, "rules", p["id"].lower() + ".py")
    out.append("### %s %s" % (p["id"], p["title"]))
    out.append("")
    if not os.path.exists(f):
        out += ["Not applicable, see MANIFEST.json.", ""]
        continue
    m = importlib.import_module(p["id"].lower())
    tree = ast.parse(open(f).read())
    parts = []
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name == "check":
            parts = [x.id for x in ast.walk(n) if isinstance(x, ast.Name)]
    if getattr(m, "NOTE", ""):
        out += ["*Analysed:* " + m.NOTE + ".", ""]
    docs = [(n.name, ast.get_docstring(n)) for n in tree.body if isinstance(n, ast.FunctionDef) and ast.get_docstring(n) and n.name in parts]
    if not docs:
        docs = [(n.name, ast.get_docstring(n)) for n in tree.body if isinstance(n, ast.FunctionDef) and ast.get_docstring(n) and n.args.args and n.args.args[0].arg == "K" and len(n.args.args) == 1]
    for name, d in docs:
        out.append("- `%s`: %s" % (name.rstrip("_"), " ".join(d.split()).rstrip(".")))
    out.append("")
    a = getattr(m, "ASSUMPTIONS", [])
    if a:
        out += ["*Assumed:* " + "; ".join(a) + ".", ""]
    if p["id"] in LIMIT:
        out += ["*Not decided:* " + LIMIT[p["id"]], ""]
out.append(open(os.path.join(V, "tools", "design_tail.md")).read().rstrip())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
