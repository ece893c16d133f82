#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pystrata/"
P = {}
NA = {}


def prop(id, title, statement, over, text, why, files, mech, observe=(), note="", state=()):
    P[id] = dict(
        d=dict(
            id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=[S + f for f in files], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                         mechanism=[dict(name=a, where=S + b) for a, b in mech], observe_at=list(observe), hook_needed=None),
        ),
        note=note,
    )


exec(open(os.path.join(HERE, "tools", "props.py")).read())

TECH = ("symbolic execution of the package's own Python source (re-read from /repo on every run) with path forking; "
        "each obligation is negated and decided by z3 (cvc5 as second solver) over all input values of the path")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for k in sorted(P):
        f.write(json.dumps(P[k]["d"], ensure_ascii=False) + "\n")
m = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=[
        dict(
            property=k, quick_cmd=f"./run.sh {k} --tier quick", thorough_cmd=f"./run.sh {k} --tier thorough",
            technique=TECH, level="model_checking", level_note=P[k]["note"],
        )
        for k in sorted(P) if k not in NA
    ],
    not_applicable=[dict(property=k, reason=NA[k]) for k in sorted(NA)],
    notes="Reals stand for floating-point numbers; bounds and encoded functions are in the evidence files. See DESIGN.md.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")

# the per-property part of DESIGN.md
import sys  # noqa: E402

sys.path.insert(0, HERE + "/tools")
sys.dont_write_bytecode = True
import design  # noqa: E402

path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()


def fill(text, name, new):
    a, b = f"<!-- {name} -->\n", f"<!-- end of {name} -->\n"
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + new + text[j:]


items = [dict(id=k, title=P[k]["d"]["title"], note=P[k]["note"].replace(N1, "").strip()) for k in sorted(P) if k not in NA]
text = fill(text, "properties", design.section(items))
text = fill(text, "seeded", design.seeded())
text = fill(text, "findings", design.findings())
open(path, "w").write(text)
