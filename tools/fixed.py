"""tools/fixed.py PROP "what failed" [message]: commit /repo's working tree as a fix and record it"""
import json, pathlib, subprocess, sys
prop, what, msg = sys.argv[1:4]
git = ["git", "-C", "/repo"]
subprocess.run(git + ["commit", "-qam", f"fix: {msg}"], check=True)
h = subprocess.run(git + ["rev-parse", "--short", "HEAD"], check=True, capture_output=True, text=True).stdout.strip()
p = pathlib.Path("/verif/known_findings.json")
d = json.loads(p.read_text()) if p.exists() else {"findings": [], "fixed": []}
d["fixed"].append(f"fixed: property={prop} {h} {what}")
p.write_text(json.dumps(d, indent=1) + "\n")
print(d["fixed"][-1])
