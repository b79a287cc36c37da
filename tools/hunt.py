"""tools/hunt.py [ID...]: run the check of each planted bug's property on a scratch copy of /repo with the bug"""
import fcntl, json, os, pathlib, shutil, subprocess, sys, time
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from plant import V, copy_repo, run

FILE = V / "tools" / "hunt.json"  # for tools/make_design.py


def record(bid, result):
    with open(f"{FILE}.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = json.loads(FILE.read_text()) if FILE.exists() else {}
        d[bid] = result
        FILE.write_text(json.dumps(dict(sorted(d.items())), indent=1) + "\n")


ids = sys.argv[1:] or sorted(p.name for p in (V / "seeded").iterdir())
for bid in ids:
    meta = json.loads((V / "seeded" / bid / "meta.json").read_text())
    prop = meta["property"]
    scratch = copy_repo(bid)
    try:
        subprocess.run(["git", "-C", str(scratch), "apply", str(V / "seeded" / bid / "patch.diff")], check=True)
        t = time.time()
        rc, text = run([str(V / "check"), prop], V, dict(VERIF_REPO=str(scratch), VERIF_OUT=f"/tmp/plant/{bid}.out"), 3000)
        caught = rc == 1 and f"VIOLATION property={prop}" in text
        subs = [l.split("/")[-1] for l in text.splitlines() if l.startswith("VIOLATION")]
        record(bid, dict(property=prop, caught=caught, by=[x.removesuffix(".json").replace("_", " ") for x in subs]))
        print(f"{'caught' if caught else 'MISSED'} {bid} {prop} rc={rc} {time.time() - t:.0f}s {' '.join(subs)}", flush=True)
        if not caught:
            print(text[-1500:], flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(f"/tmp/plant/{bid}.out", ignore_errors=True)
