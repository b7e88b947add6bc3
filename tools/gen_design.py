"""Fills the generated tables of /verif/DESIGN.md (per-property rules, planted changes)."""
import ast, glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def text(node):
    if isinstance(node, ast.Constant):
        return str(node.value)
    if isinstance(node, ast.JoinedStr):
        return "".join(text(v) if isinstance(v, ast.Constant) else "…" for v in node.values)
    if isinstance(node, ast.BinOp):
        return text(node.left) + text(node.right)
    return "…"


def rules(i):
    out = []
    for n in ast.walk(ast.parse(open(os.path.join(HERE, "sa", "rules", i.lower() + ".py")).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" and n.args:
            out.append((n.lineno, text(n.args[0])))
    return [t for _, t in sorted(out)]


props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
na = {x["property"]: x["reason"] for x in json.load(open(os.path.join(HERE, "MANIFEST.json")))["not_applicable"]}
ev = {}
rows = ["| property | how it is decided |", "| --- | --- |"]
for p in props:
    i = p["id"]
    if i in na:
        rows.append(f"| {i} {p['title']} | **not applicable**: {na[i]} |")
    else:
        rows.append(f"| {i} {p['title']} | " + "; ".join(rules(i)).replace("|", "/").replace("\n", " ") + " |")
seeded = ["| change | property | what it needs | caught by |", "| --- | --- | --- | --- |"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    seeded.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m['property']} |".replace("\n", " "))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
for name, lines in (("rules", rows), ("seeded", seeded)):
    s = re.sub(rf"(<!-- {name} -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(lines) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
