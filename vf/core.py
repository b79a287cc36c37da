"""
Core of the checking machinery: sub-check registry, violations, case bookkeeping.

A *sub-check* is a Hypothesis strategy producing JSON-serialisable cases plus a
function ``check(case)`` that raises `Violation` when the property fails on that
case and returns True when the case was non-trivial by the sub-check's rule.
"""

import json
import sys
import os

# numpy, scipy, jax, matplotlib come from /opt/venv; hypothesis is only in the
# tooling environment (same Python version), so it goes last on the path.
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import numpy as np

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


class Violation(AssertionError):
    """The property does not hold on the case at hand"""


class HarnessError(Exception):
    """The machinery itself is at fault"""


class Sub:
    def __init__(self, prop, name, strategy, check, quick, thorough, shards, weight, rule, stride=1, want=None):
        self.stride, self.want = stride, want
        self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
        self.quick, self.thorough, self.shards, self.weight = quick, thorough, shards, weight
        self.rule = rule


REGISTRY: dict[str, dict[str, Sub]] = {}


def sub(prop, name, strategy, quick, thorough=None, shards=1, weight=1.0, rule="", stride=1, want=None):
    """
    Register a sub-check

    quick, thorough: total number of cases; shards: number of independent
    Hypothesis runs the quick cases are split into (thorough uses at least 8);
    stride: cases generated per case executed, for expensive checks (Hypothesis
    starts small and repeats itself in short runs: the executed cases are spread
    over the whole longer run, without repeats); want: predicate of the cases
    worth executing, trivial ones are passed over;
    weight: estimated CPU seconds per 100 cases, used to balance workers.
    """
    if thorough is None:
        thorough = 20 * quick

    def register(check):
        REGISTRY.setdefault(prop, {})
        if name in REGISTRY[prop]:
            raise HarnessError(f"duplicate sub-check {prop}/{name}")
        REGISTRY[prop][name] = Sub(
            prop, name, strategy, check, quick, thorough, shards, weight, rule, stride, want
        )
        return check

    return register


def interpreted(prop, name, strategy, check, quick, thorough=None, **kw):
    """
    The same check with JAX's compilation switched off (jax.disable_jit), about ten times as many cases in the same time:
    compiling takes most of the time of solving a small layout.
    """
    return sub(prop, name + " interpreted", strategy, quick, thorough, **kw)(eager(check))


def eager(check):
    def run(case):
        import jax

        with jax.disable_jit():
            return check(case)

    return run


def precision(bits):
    import jax

    on = getattr(jax, "enable_x64", None)
    if on is None:
        from jax.experimental import enable_x64 as on
    return on(bits == 64)


_single = False


def slack(factor=1e6):
    """How much larger than in double precision numerical errors may be"""
    return factor if _single else 1.0


def single(prop, name, strategy, check, quick, thorough=None, **kw):
    """The same check in single precision, which is what JAX uses unless told otherwise; `close` allows for that"""
    def run(case):
        global _single
        _single = True
        try:
            with precision(32):
                return check(case)
        finally:
            _single = False

    return sub(prop, name + " single", strategy, quick, thorough, **kw)(run)


class Ctx:
    """Labels recorded while a case runs"""

    def __init__(self):
        self.labels = {}

    def label(self, *names):
        for name in names:
            self.labels[str(name)] = self.labels.get(str(name), 0) + 1


CTX = Ctx()
label = CTX.label


def normal(case):
    """Return the case as it would come back from a replay file"""
    return json.loads(json.dumps(case))


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def vec(x, what="value"):
    """Return `x` as a flat float array, or report a violation"""
    try:
        a = np.asarray(x, dtype=float)
    except Exception as exc:
        raise Violation(f"{what} is not numeric: {x!r} ({exc})")
    return a.reshape(-1)


def close(actual, expected, what, rtol=1e-9, atol=1e-9, scale=None):
    """Require elementwise agreement; nan agrees with nan, inf with inf"""
    a, e = vec(actual, what), np.asarray(expected, dtype=float).reshape(-1)
    if a.shape != e.shape:
        raise Violation(f"{what}: expected {e.size} numbers {e.tolist()}, got {a.size} numbers {a.tolist()}")
    if scale is None:
        scale = 0.0
    rtol, atol = rtol * (1e4 if _single else 1), atol * slack()
    with np.errstate(all="ignore"):
        ok = np.isclose(a, e, rtol=rtol, atol=atol + rtol * scale, equal_nan=True)
    if not np.all(ok):
        raise Violation(f"{what}: expected {e.tolist()}, got {a.tolist()}")


def raises(types, fn, what):
    """Require that `fn` raises one of `types`"""
    try:
        res = fn()
    except types as exc:
        return exc
    except Exception as exc:
        raise Violation(f"{what}: expected {types}, got {type(exc).__name__}: {exc}")
    raise Violation(f"{what}: expected {types}, but the call returned {str(res)[:200]}")


def load(prop):
    import importlib
    importlib.import_module(f"vf.props.{prop.lower()}")
    return REGISTRY[prop]
