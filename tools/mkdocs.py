"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""

import json
from pathlib import Path

V = Path(__file__).resolve().parents[1]
DL = "src/modssc/data_loader/"
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, level="exploration", note="", state=None):
    PROPS.append(dict(
        row=dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                              **({"state": state} if state else {}), hook_needed=None)),
        level=level, note=note))


def N(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech)
    PROPS[-1]["na"] = reason


exec((Path(__file__).with_name("props_table.py")).read_text())

TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences"
rows, checks, na = [], [], []
for p in PROPS:
    rows.append(json.dumps(p["row"], ensure_ascii=False))
    i = p["row"]["id"]
    if "na" in p:
        na.append(dict(property=i, reason=p["na"]))
    else:
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                           technique=TECH, level=p["level"], level_note=p["note"]))
(V / "properties.jsonl").write_text("\n".join(rows) + "\n")
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every seam is installed from outside by vsim/seam.py. "
               "Replay a violation with: /opt/venv/bin/python -B -m vsim replay FILE")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(checks), "claimed,", len(na), "not applicable")
