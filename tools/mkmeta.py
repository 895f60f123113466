"""Writes properties.jsonl and MANIFEST.json from tools/defs.py, for the properties that have a module in props/."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "vendor"))
from tools.defs import D

NA = []
lines, checks = [], []
for d in D:
    if not os.path.exists(f"{HERE}/props/{d['id'].lower()}.py"):
        continue
    lines.append(json.dumps(dict(
        id=d["id"], title=d["title"], statement=d["statement"], quantifier=dict(over=d["over"], text=d["qtext"]),
        why_tests_cant=d["why"],
        anchors=dict(files=d["files"], mechanism=[dict(name=a, where=b) for a, b in d["mech"]]))))
    assert len(d["title"]) <= 80, d["id"]
    checks.append(dict(
        property=d["id"], quick_cmd=f"./run.sh {d['id']} quick", thorough_cmd=f"./run.sh {d['id']} thorough",
        technique="property-based testing (hypothesis generators, independent reference oracle, shrinking to a replay file)",
        level="exploration",
        level_note="generated-input search against an explicit oracle over the real code; bounded by the number and size of generated cases"))
open(f"{HERE}/properties.jsonl", "w").write("\n".join(lines) + "\n")
json.dump(dict(version=1, setup_cmd="./run.sh --selftest", checks=checks, not_applicable=NA,
               notes="checks import the code from /repo's working tree (editable install, PYTHONDONTWRITEBYTECODE=1); no hooks in /repo"),
          open(f"{HERE}/MANIFEST.json", "w"), indent=1)
open(f"{HERE}/MANIFEST.json", "a").write("\n")
print(len(lines), "properties")

# ---------------------------------------------------------------- DESIGN.md
try:
    import numpy  # noqa: F401  (the property modules need it)
except ImportError:
    print("DESIGN.md not regenerated: run with /opt/venv/bin/python")
    sys.exit(0)
planted = json.load(open(f"{HERE}/tools/planted.json"))
kf = json.load(open(f"{HERE}/known_findings.json"))
out = [open(f"{HERE}/tools/design_head.md").read()]
out.append("## Properties and how each is decided\n")
for d in D:
    if not os.path.exists(f"{HERE}/props/{d['id'].lower()}.py"):
        continue
    mod = importlib.import_module("props." + d["id"].lower())
    out.append(f"### {d['id']} {d['title']}\n\n{d['statement']}\n")
    out.append(f"- *Check*: {' '.join((mod.__doc__ or '').split())}")
    out.append(f"- *Generated / oracle / non-trivial*: {mod.RULE}.")
    if getattr(mod, "ORACLE", None):
        out.append(f"- *Oracle detail*: {mod.ORACLE}")
    if getattr(mod, "ASSUMPTIONS", None):
        out.append("- *Bounds and assumptions*: " + "; ".join(mod.ASSUMPTIONS) + ".")
    out.append("- *Cost (generated cases)*: " + ", ".join(f"{s.name} {s.quick} quick / {s.thorough} thorough" for s in mod.SUBS) + ".")
    out.append(f"- *Why tests cannot*: {d['why']}.")
    b = []
    for sid in sorted(planted):
        mp = f"{HERE}/seeded/{sid}/meta.json"
        if os.path.exists(mp) and json.load(open(mp))["property"] == d["id"]:
            b.append(f"{sid} ({planted[sid].get(d['id'], '?')})")
    if b:
        out.append("- *Planted changes*: " + ", ".join(b) + ".")
    out.append("")
out.append("## Planted changes\n")
out.append("| id | property | needs | breaks | result |\n|---|---|---|---|---|")
for sid in sorted(planted):
    mp = f"{HERE}/seeded/{sid}/meta.json"
    if os.path.exists(mp):
        m = json.load(open(mp))
        r = "; ".join(f"{k} {v}" for k, v in planted[sid].items() if k != "stable_tests")
        out.append(f"| {sid} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {r} |")
out.append("\n## Genuine defects found\n\nRepaired by `fix:` commits in /repo:\n")
out += ["- " + x[len("fixed: "):] for x in kf["fixed"]]
op = [x for x in kf["findings"] if x.get("status") == "open"]
if op:
    out.append("\nRecorded, not repaired (known_findings.json):\n")
    out += [f"- {x['id']} ({x['property']}): {x['what']}" + (f" — {x['why']}" if x.get("why") else "") for x in op]
open(f"{HERE}/DESIGN.md", "w").write("\n".join(out) + "\n")
