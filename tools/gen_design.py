#!/usr/bin/env python3
"""writes DESIGN.md from tools/DESIGN.in.md, the specs and the planted bugs"""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
out = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    t = ast.parse(open(f"{V}/specs/{i}.py").read())
    proof, bounded = [], []
    for f in t.body:
        if not isinstance(f, ast.FunctionDef):
            continue
        for d in f.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "lemma":
                mode = next((k.value.value for k in d.keywords if k.arg == "mode"), "proof")
                doc = (ast.get_docstring(f) or "").split("\n")[0]
                (bounded if mode == "bounded" else proof).append(f"`{f.name}`" + (f" ({doc})" if doc else ""))
    a = {}
    exec(compile(ast.Module([s for s in t.body if isinstance(s, ast.Assign) and getattr(s.targets[0], "id", "") in ("NOTE", "ASSUMPTIONS")], []), i, "exec"), a)
    out.append(f"### {i} {p['title']} — {m[i]['level'] if i in m else 'not claimed'}\n")
    if proof:
        out.append("Proved: " + ", ".join(proof) + ".")
    if bounded:
        out.append("Bounded (sampled natively): " + ", ".join(bounded) + ".")
    if i in m:
        out.append("Scope: " + m[i]["level_note"] + ".")
    if a.get("ASSUMPTIONS"):
        out.append("Assumptions: " + "; ".join(a["ASSUMPTIONS"]) + ".")
    out.append("")
seeded = ["| change | property | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    seeded.append(f"| {f.split('/')[-2]} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |".replace("\n", " "))
s = open(V + "/tools/DESIGN.in.md").read().replace("@TABLE@", "\n".join(out)).replace("@SEEDED@", "\n".join(seeded))
open(V + "/DESIGN.md", "w").write(s)
