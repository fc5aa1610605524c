"""writes properties.jsonl and MANIFEST.json from tools/props.py (run after editing)"""

import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from tools.props import PROPS, NOT_APPLICABLE, NOTES  # noqa

TECH = "runtime monitoring: "
lines = []
checks = []
for p in PROPS:
    d = dict(
        id=p["id"],
        title=p["title"],
        statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["qtext"]),
        why_tests_cant=p["why"],
        anchors=dict(
            files=p["files"],
            mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
            observe_at=p["observe"],
            hook_needed=None,
        ),
    )
    assert len(d["title"]) <= 80, d["title"]
    lines.append(json.dumps(d))
    if (ROOT / "checks" / f"{p['id'].lower()}.py").is_file():
        checks.append(
            dict(
                property=p["id"],
                quick_cmd=f"./run.sh {p['id']} quick",
                thorough_cmd=f"./run.sh {p['id']} thorough",
                evidence_file=f"evidence/{p['id']}.json",
                technique=TECH + p["technique"],
                level="exploration",
                level_note=p["level"],
            )
        )
    else:
        print("NO CHECK YET", p["id"])
(ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
claimed = {c["property"] for c in checks}
na = list(NOT_APPLICABLE) + [
    dict(property=p["id"], reason="check not built yet")
    for p in PROPS
    if p["id"] not in claimed
]
m = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); import harness.core, harness.main\"",
    checks=checks,
    not_applicable=na,
    notes=NOTES,
)
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
try:
    import jsonschema

    sch = json.loads(Path("/root/.vp/MANIFEST.schema.json").read_text())
    jsonschema.validate(m, sch)
    sch = json.loads(Path("/root/.vp/PROPERTIES.schema.json").read_text())
    for line in lines:
        jsonschema.validate(json.loads(line), sch)
    print("schemas ok", len(checks), "checks")
except ImportError:
    print("jsonschema missing")
