"""
Run a list of sub-check shards in this process and write the results as JSON

usage: python -m vf.worker TASKFILE RESULTFILE
"""

import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

from . import core

SHRINK_S, LATER_SHRINK_S, ENOUGH_S = 40, 8, 240  # a worker that found a violation stops after ENOUGH_S
HANG_CPU_S = 150  # CPU seconds for one case that normally takes well under one second

_state = {"results": [], "out": None, "case": None, "task": None}


def _flush():
    tmp = _state["out"] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(_state["results"], f)
    os.replace(tmp, _state["out"])


def _on_cpu_limit(signum, frame):
    # Deterministic work bound, not wall clock: the case used HANG_CPU_S of CPU time.
    _state["results"].append(dict(
        task=_state["task"], status="violation", case=_state["case"],
        message=f"did not terminate within {HANG_CPU_S} CPU seconds", evaluations=1,
        hashes=[], samples=[], labels={}, wall=0.0,
    ))
    _flush()
    os._exit(0)


def in_repo(exc):
    """Whether any frame of the exception's traceback (or of its causes) is in the code under test"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fs in traceback.extract_tb(exc.__traceback__):
            if os.path.realpath(fs.filename).startswith(core.REPO + os.sep):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def run_case(sub, case):
    """Run one case; return whether it was non-trivial; raise Violation or HarnessError"""
    signal.setitimer(signal.ITIMER_PROF, HANG_CPU_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return bool(sub.check(case))
    except core.Violation:
        raise
    except core.HarnessError:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as exc:
        if type(exc).__module__.startswith("hypothesis"):
            raise
        if in_repo(exc):
            tb = traceback.extract_tb(exc.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if os.path.realpath(f.filename).startswith(core.REPO)]
            raise core.Violation(
                f"unexpected {type(exc).__name__} on a valid input: {str(exc)[:300]} (in {' > '.join(where[-3:])})"
            ) from exc
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def run_task(task, shrink_s=SHRINK_S):
    from hypothesis import HealthCheck, Phase, given, seed, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = shrink_s

    sub = core.load(task["prop"])[task["sub"]]
    core.CTX.labels.clear()
    seen, samples, count = {}, [], [0]
    drawn, done, total = [0], set(), task["n"] * sub.stride
    last = {"case": None, "msg": None}

    def body(case):
        case = core.normal(case)
        _state["case"] = case
        if sub.stride > 1 and last["case"] is None:
            drawn[0] += 1
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()
            if count[0] >= math.ceil(task["n"] * drawn[0] / total) or h in done or (sub.want and not sub.want(case)):
                return
            done.add(h)
        count[0] += 1
        try:
            nontrivial = run_case(sub, case)
        except core.Violation as exc:
            last["case"], last["msg"] = case, str(exc)
            raise
        if nontrivial and last["case"] is None:
            text = json.dumps(case, sort_keys=True)
            h = hashlib.sha1(text.encode()).hexdigest()[:14]
            if h not in seen:
                seen[h] = True
                if len(text) < 2500 and (len(samples) < 1 or (len(samples) < 3 and len(seen) % 7 == 3)):
                    samples.append(case)

    name = f"{task['prop']}_{task['sub']}".replace(" ", "_").replace("-", "_")
    body.__name__ = body.__qualname__ = name
    s = zlib.crc32(f"{task['seed']}/{task['prop']}/{task['sub']}/{task['shard']}".encode())
    test = seed(s)(settings(
        max_examples=total, deadline=None, database=None, print_blob=False,
        report_multiple_bugs=False, derandomize=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
    )(given(case=sub.strategy)(body)))

    res = dict(task=task, status="ok", case=None, message=None)
    t0 = time.time()
    try:
        test()
    except core.Violation as exc:
        res.update(status="violation", case=last["case"], message=last["msg"] or str(exc))
    except BaseException as exc:
        if last["case"] is not None and type(exc).__name__ in ("FlakyFailure", "Flaky", "FlakyReplay"):
            res.update(status="violation", case=last["case"], message=last["msg"] + " (not on every repetition)")
        else:
            if isinstance(exc, KeyboardInterrupt):
                raise
            res.update(status="error", case=_state["case"], message="".join(traceback.format_exception(exc))[-4000:])
    res.update(evaluations=count[0], hashes=list(seen), samples=samples,
               labels=dict(core.CTX.labels), wall=time.time() - t0)
    return res


def main():
    taskfile, out = sys.argv[1:3]
    _state["out"] = out
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    with open(taskfile) as f:
        tasks = json.load(f)
    t0, found = time.time(), False
    for task in tasks:
        _state["task"] = task
        _state["results"].append(run_task(task, LATER_SHRINK_S if found else SHRINK_S))
        _flush()
        found = found or _state["results"][-1]["status"] == "violation"
        if found and time.time() - t0 > ENOUGH_S:
            break
    _flush()


if __name__ == "__main__":
    main()
