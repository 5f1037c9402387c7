"""Generate properties.jsonl and MANIFEST.json (claimed = a check module exists)."""
import json
import pathlib
import sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from tools.props import PROPS, NOT_YET, NOTES  # noqa: E402

props, checks, na = [], [], []
for p in PROPS:
    p = dict(p)
    tech, note = p.pop("technique"), p.pop("note")
    files = p.pop("files")
    mech = p.pop("mech")
    over = p.pop("over")
    props.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": over, "text": p["q"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": files,
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": p["obs"], "hook_needed": None},
    })
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    if (V / "checks" / f"{p['id'].lower()}.py").exists() and p["id"] not in NOT_YET:
        checks.append({
            "property": p["id"], "quick_cmd": f"./run {p['id']}",
            "thorough_cmd": f"./run {p['id']} --tier thorough",
            "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": p["id"],
                   "reason": NOT_YET.get(p["id"], "no sound check built yet in this session")})
(V / "properties.jsonl").write_text("".join(json.dumps(x) + "\n" for x in props))
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "./setup.sh",
    "checks": checks, "not_applicable": na,
    "notes": NOTES}, indent=1) + "\n")
import jsonschema  # noqa: E402
jsonschema.validate(json.loads((V / "MANIFEST.json").read_text()),
                    json.loads(pathlib.Path("/root/.vp/MANIFEST.schema.json").read_text()))
s = json.loads(pathlib.Path("/root/.vp/PROPERTIES.schema.json").read_text())
for x in props:
    jsonschema.validate(x, s)
print(len(props), "properties,", len(checks), "checks")
