"""
tools/plant.py FILE.py [ID...]: confirm planted bugs in scratch copies of /repo and keep them under seeded/

FILE.py defines bugs = [dict(id, property, needs, breaks, edits=[(file, old, new), ...], demo), ...] where demo is a
Python program. A bug is kept when its demo passes unpatched and fails patched and the repository's tests pass with it.
"""
import concurrent.futures, json, os, pathlib, shutil, subprocess, sys

V = pathlib.Path(__file__).resolve().parent.parent
DEMO = '''#!/bin/bash
export JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONPATH="$PWD/src${PYTHONPATH:+:$PYTHONPATH}"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def copy_repo(name):
    scratch = pathlib.Path(f"/tmp/plant/{name}")
    shutil.rmtree(scratch, ignore_errors=True)
    scratch.parent.mkdir(exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", str(scratch)], check=True)
    subprocess.run(["git", "-C", str(scratch), "checkout", "-q", "--", "."], check=True)
    return scratch


def own_lines(repo, diff):
    """The lines a diff removes that are not of the original repository"""
    mine, f, n = [], None, 0
    for l in diff.splitlines():
        if l.startswith("--- "):
            f = l[6:]
            blame = subprocess.run(["git", "blame", "-s", "HEAD", "--", f], cwd=repo, capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("+"):
            pass
        else:
            if l.startswith("-") and not blame[n - 1].startswith("^"):
                mine.append(blame[n - 1])
            n += 1
    return mine


def plant(bug):
    bid, prop = bug["id"], bug["property"]
    scratch = copy_repo(bid)
    work = pathlib.Path(f"/tmp/plant/{bid}.files")
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir()
    (work / "demo.sh").write_text(DEMO)
    (work / "demo.sh").chmod(0o755)
    (work / "demo.py").write_text(bug["demo"].lstrip("\n"))
    meta = dict(property=prop, needs=" ".join(bug["needs"].split()), what_it_breaks=" ".join(bug["breaks"].split()))
    (work / "meta.json").write_text(json.dumps(meta, indent=1) + "\n")
    out = {"id": bid, "property": prop}
    try:
        rc, text = run(["bash", str(work / "demo.sh")], scratch)
        if rc:
            return dict(out, bad="demo fails unpatched", text=text[-1500:])
        for f, old, new in bug["edits"]:
            p = scratch / "src/mpllayout" / f
            s = p.read_text()
            if s.count(old) != 1:
                return dict(out, bad=f"{s.count(old)} places for {old!r} in {f}")
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "-C", str(scratch), "diff"], capture_output=True, text=True, check=True).stdout
        (work / "patch.diff").write_text(diff)
        mine = own_lines(scratch, diff)
        if mine:
            return dict(out, bad="changes lines of our own commits", text="\n".join(mine))
        rc, text = run(["bash", str(work / "demo.sh")], scratch)
        if rc == 0:
            return dict(out, bad="demo passes patched")
        out["demo"] = text.strip().splitlines()[-1][:150]
        env = dict(JAX_ENABLE_X64="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONPATH=str(scratch / "src"))
        rc, text = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "tests", "-x", "-p", "no:cacheprovider"], scratch, env)
        if rc:
            return dict(out, bad="tests fail", text=text[-600:])
        keep = V / "seeded" / bid
        shutil.rmtree(keep, ignore_errors=True)
        shutil.copytree(work, keep)
        return out
    except Exception as e:
        return dict(out, bad=repr(e))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(pathlib.Path(sys.argv[1]).read_text(), ns)
    bugs = [b for b in ns["bugs"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(6) as pool:
        for r in pool.map(plant, bugs):
            t = r.pop("text", "")
            print(json.dumps(r), flush=True)
            if t:
                print(t)
