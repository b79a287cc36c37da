"""
Entry point of every check

usage: python -m vf.run PROPERTY | --replay FILE

Exit codes: 0 held on everything explored; 1 violation; 3 error of the machinery.
"""

import json
import os
import pathlib
import subprocess
import sys
import tempfile
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
BUDGET_S = {"quick": 780, "thorough": 6 * 3600}


def check_import():
    import mpllayout
    where = os.path.realpath(mpllayout.__file__)
    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    if not where.startswith(repo + os.sep):
        print(f"error: mpllayout comes from {where}, not from {repo}")
        sys.exit(3)


def make_tasks(subs, prop, tier, seed):
    tasks = []
    only = os.environ.get("VERIF_ONLY")  # development aid: run one sub-check
    factor = float(os.environ.get("VERIF_FACTOR", "1"))  # development aid: more cases
    for name, s in subs.items():
        if only and name not in only.split(","):
            continue
        n = s.quick if tier == "quick" else s.thorough
        n = max(1, int(n * factor))
        shards = s.shards if tier == "quick" else max(s.shards, 8)
        shards = min(shards, n)
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            tasks.append(dict(prop=prop, sub=name, shard=k, n=m, seed=seed, cost=0.2 + s.weight * m / 100))
    return tasks


def distribute(tasks):
    bins = [[0.0, []] for _ in range(min(WORKERS, len(tasks)))]
    for t in sorted(tasks, key=lambda t: (-t["cost"], t["sub"], t["shard"])):
        b = min(bins, key=lambda b: b[0])
        b[0] += t["cost"]
        b[1].append(t)
    return [b[1] for b in bins]


def run_workers(tasks, tmp, budget):
    procs = []
    for i, group in enumerate(distribute(tasks)):
        tf, rf, lf = (os.path.join(tmp, f"{k}{i}") for k in ("task", "result", "log"))
        with open(tf, "w") as f:
            json.dump(group, f)
        log = open(lf, "w")
        p = subprocess.Popen([sys.executable, "-m", "vf.worker", tf, rf], cwd=ROOT, stdout=log, stderr=log)
        procs.append((p, group, rf, lf, log))
    end = time.time() + budget
    results, errors = [], []
    for p, group, rf, lf, log in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append(f"worker over its {budget} s budget (inconclusive)")
        log.close()
        got = []
        if os.path.exists(rf):
            with open(rf) as f:
                got = json.load(f)
        results += got
        if len(got) < len(group) and not any(r["status"] == "violation" for r in got):
            errors.append(f"worker ended with {p.returncode} after {len(got)} of {len(group)} tasks:\n" + open(lf).read()[-3000:])
    return results, errors


def known_findings(prop):
    path = ROOT / "known_findings.json"
    if not path.exists():
        return []
    return [k for k in json.loads(path.read_text())["findings"]
            if k["property"] == prop and k.get("status", "open") == "open"]


def matches(finding, sub, message, case):
    """A finding names the sub-check and the exact failing input or message fragment"""
    if finding["sub"] != sub:
        return False
    if "case" in finding:
        return finding["case"] == case
    return finding["message_contains"] in message


def run_regressions(prop, subs):
    """Replay the saved cases of this property in this process' children: returns result records"""
    recs = []
    for path in sorted((ROOT / "regress" / prop).glob("*.json")):
        data = json.loads(path.read_text())
        if data["sub"] not in subs:
            print(f"error: {path} names unknown sub-check")
            sys.exit(3)
        recs.append((path, data))
    return recs


def replay(path):
    check_import()
    data = json.loads(pathlib.Path(path).read_text())
    from . import core, worker
    sub = core.load(data["property"])[data["sub"]]
    try:
        worker.run_case(sub, data["case"])
    except core.Violation as exc:
        print(f"{data['property']}/{data['sub']}: {exc}")
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1
    print("no violation")
    return 0


def main():
    if sys.argv[1] == "--selftest":
        check_import()
        from . import core
        from hypothesis import __version__
        print("ready: hypothesis", __version__)
        sys.exit(0)
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET_S:
        tier = "quick"
    t0 = time.time()
    check_import()
    from . import core, worker
    subs = core.load(prop)

    results, errors = [], []
    # 1. replay tier: inputs saved from earlier failures
    import signal

    def on_cpu_limit(signum, frame):
        raise core.Violation(f"did not terminate within {worker.HANG_CPU_S} CPU seconds")
    signal.signal(signal.SIGPROF, on_cpu_limit)
    n_regress = 0
    for path, data in run_regressions(prop, subs):
        if results and time.time() - t0 > 100:
            break
        n_regress += 1
        try:
            worker.run_case(subs[data["sub"]], data["case"])
        except core.Violation as exc:
            results.append(dict(task=dict(sub=data["sub"], shard="regress"), status="violation", case=data["case"],
                                message=str(exc), evaluations=1, hashes=[], samples=[], labels={}, wall=0))
    # 2. generated cases
    tasks = make_tasks(subs, prop, tier, seed)
    with tempfile.TemporaryDirectory(prefix="vf") as tmp:
        r, errors = run_workers(tasks, tmp, max(60, BUDGET_S[tier] - (time.time() - t0)))
        results += r

    known = known_findings(prop)
    violations, errs = [], list(errors)
    for r in results:
        if r["status"] == "violation":
            k = next((k for k in known if matches(k, r["task"]["sub"], r["message"], r["case"])), None)
            if k is None:
                violations.append(r)
        elif r["status"] == "error":
            errs.append(f"{r['task']['sub']}: {r['message']}")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    # evidence
    per, labels, hashes, samples = {}, {}, 0, []
    for name in subs:
        rs = [r for r in results if r["task"]["sub"] == name]
        hs = set()
        for r in rs:
            hs.update(r["hashes"])
            for l, c in r["labels"].items():
                labels.setdefault(name, {})
                labels[name][l] = labels[name].get(l, 0) + c
        per[name] = dict(evaluations=sum(r["evaluations"] for r in rs), distinct_nontrivial=len(hs),
                         seconds=round(sum(r["wall"] for r in rs), 2))
        hashes += len(hs)
        first = [c for r in rs for c in r["samples"]]
        if first:
            samples.append(dict(sub=name, case=min(first[:3], key=lambda c: abs(len(json.dumps(c)) - 500))))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(p["evaluations"] for p in per.values()),
            distinct_nontrivial=hashes,
            rule="Hypothesis-generated cases per sub-check; a case counts once (by content) and only if its sub-check's rule holds: "
                 + "; ".join(f"{n}: {s.rule or 'every executed case'}" for n, s in subs.items()),
            samples=samples[:12], sub_checks=per, labels=labels, replayed_regressions=n_regress,
            exhaustive=False,
        ),
        assumptions=["Python 3.12, numpy, scipy, jax 0.11, matplotlib of /opt/venv", "JAX double precision unless a sub-check says otherwise"],
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    dest = pathlib.Path(os.environ.get("VERIF_OUT") or ROOT)  # development aid: results elsewhere
    (dest / "evidence").mkdir(parents=True, exist_ok=True)
    (dest / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")

    if violations:
        out = dest / "replays" / prop
        out.mkdir(parents=True, exist_ok=True)
        done = set()
        for r in violations:
            name = r["task"]["sub"]
            if name in done:
                continue
            done.add(name)
            path = out / f"{name.replace(' ', '_')}.json"
            path.write_text(json.dumps(dict(property=prop, sub=name, message=r["message"], case=r["case"]), indent=1) + "\n")
            print(f"{prop}/{name}: {r['message'][:1500]}")
            print(f"  case: {json.dumps(r['case'])[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        for e in sorted(set(errs))[:2]:
            print("error:", e[-1500:])
        sys.exit(1)
    if errs:
        for e in sorted(set(errs))[:2]:
            print("error:", e[-2500:])
        sys.exit(3)
    total = evidence["coverage"]
    print(f"{prop}: held on {total['evaluations']} cases ({total['distinct_nontrivial']} distinct non-trivial) in {evidence['wall_s']} s")
    sys.exit(0)


if __name__ == "__main__":
    main()
