#!/opt/veriftools/pyvenv/bin/python
"""Writes DESIGN.md from tools/design.md, the contracts, the bounded checks, the findings and the planted bugs."""
import ast
import importlib
import json
import os
import pkgutil
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import contracts                      # noqa: E402
from engine import contract as ct     # noqa: E402

for m in pkgutil.iter_modules(contracts.__path__):
    importlib.import_module("contracts." + m.name)

exec(open(os.path.join(ROOT, "tools", "design_notes.py")).read())     # NOTES, CAUGHT


def groups(pid):
    f = os.path.join(ROOT, "oracle", pid.lower() + ".py")
    if not os.path.exists(f):
        return []
    out = []
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "group":
                    cnt = d.args[1].value if len(d.args) > 1 and isinstance(d.args[1], ast.Constant) else 150
                    out.append((n.name, cnt, re.sub(r"\s+", " ", ast.get_docstring(n) or "")))
    return out


props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
sec = []
for p in props:
    pid = p["id"]
    s = [f"### {pid} {p['title']}", ""]
    if pid in NOTES:
        s += [NOTES[pid].strip(), ""]
    seen = {}
    for c in ct.REG:
        if pid in c.props:
            seen.setdefault(c.q, []).append(c.label)
    if seen:
        names = sorted({q.replace("k2::", "") for q in seen})
        if pid in ("C01", "C30") and len(names) > 30:
            s.append(f"*Under contract ({len(names)} functions)*: " + ", ".join(f"`{q}`" for q in names) + ".")
        else:
            s.append("*Under contract*: " + ", ".join(f"`{q}`" for q in names) + ".")
    g = groups(pid)
    if g:
        s.append("*Bounded* (cases in the quick tier): " + "; ".join(
            f"`{n}` ({c}) {d}".rstrip() for n, c, d in g) + ".")
    sec.append("\n".join(s))
find = []
for line in open(os.path.join(ROOT, "known_findings.txt")):
    if line.startswith("fixed:"):
        m = re.match(r"fixed: property=(C\d\d) (\w+) (.*)", line.strip())
        find.append(f"* {m[1]} `{m[2]}`: {m[3]}")
    elif line.startswith("KNOWN"):
        m = re.match(r"KNOWN property=(C\d\d) id=(\S+) (.*)", line.strip())
        find.append(f"* {m[1]} **recorded, not repaired** ({m[2]}): {m[3]}")
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    f = os.path.join(ROOT, "seeded", d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append(f"| {d} | {m['property']} | {m['needs']} | {CAUGHT.get(d, 'bounded check')} |")
t = open(os.path.join(ROOT, "tools", "design.md")).read()
t = t.replace("{{PROPERTIES}}", "\n\n".join(sec)).replace("{{FINDINGS}}", "\n".join(find)).replace(
    "{{SEEDED}}", "\n".join(rows))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
print(len(t), "characters;", len(ct.REG), "contracts")
