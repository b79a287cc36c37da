"""Write MANIFEST.json: one entry per property with a check under vf/props"""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
NOTES = json.loads((root / "tools/notes.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (root / f"vf/props/{i.lower()}.py").exists():
        checks.append(dict(
            property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
            level="exploration", technique="property-based testing: Hypothesis-generated inputs (shrinking, saved replays) against " + NOTES[i][0],
            level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na)
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
