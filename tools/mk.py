"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
R = "/repo"


def where(f, pat):
    """file:line of a mechanism, looked up so that the anchors follow the code."""
    for i, line in enumerate(open(os.path.join(R, f)), 1):
        if pat in line:
            return f"{f}:{i}"
    raise SystemExit(f"{pat} not in {f}")


P = []


def p(pid, title, statement, over, text, why, files, mech, check=None, trusts=None, built=True):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, check=check,
                  trusts=trusts, built=built))


I, H, C = "inputs", "histories", "configurations"
L, U, K, D, IO, B = ["finmlkit/bar/" + x for x in ("logic.py", "utils.py", "kit.py", "data_model.py", "io.py", "base.py")]
T, LK, W, FL = "finmlkit/label/tbm.py", "finmlkit/label/kit.py", "finmlkit/label/weights.py", "finmlkit/sampling/filters.py"
FK, FB, FT, FU = ["finmlkit/feature/" + x for x in ("kit.py", "base.py", "transforms.py", "utils.py")]
FC = "finmlkit/feature/core/"

exec(open(os.path.join(HERE, "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(dict(
            id=d["id"], title=d["title"], statement=d["statement"], quantifier=dict(over=d["over"], text=d["text"]),
            why_tests_cant=d["why"],
            anchors=dict(files=d["files"], mechanism=[dict(name=n, where=where(*w)) for n, w in d["mech"]]))) + "\n")

checks, na = [], []
for d in P:
    if d["built"] and d["check"]:
        script, spec = d["check"]
        cmd = f"/opt/venv/bin/python checks/{script}.py {d['id']}"
        checks.append(dict(property=d["id"], quick_cmd=cmd, thorough_cmd=cmd + " --thorough", level="model_checking",
                           technique=f"TLA+ specification ({spec}) model-checked with TLC; its behaviours replayed into the real "
                                     f"code and the recorded traces validated by TLC against the specification",
                           level_note=d["trusts"]))
    else:
        na.append(dict(property=d["id"], reason="no check yet: under construction"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python lib/setup.py", checks=checks, not_applicable=na,
               notes="All checks are TLA+/TLC; see DESIGN.md. Confirmed defects and their repairs are in known_findings.json."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
