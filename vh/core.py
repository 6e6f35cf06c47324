"""
Registry of sub-checks and the routine that searches one of them for a violation.

A sub-check is a generator (a hypothesis strategy producing a JSON-able *case*) and an
evaluator ``fn(case, rec)`` which runs the code under test on the case and compares it with
an oracle, raising ``Violation`` if they disagree.  Cases are plain data, so a shrunk failure is
written to a JSON file and can be replayed without hypothesis.
"""
import hashlib
import json
import time
import traceback
import warnings
from collections import Counter
from dataclasses import dataclass, field

from . import bootstrap

bootstrap.setup()

REGISTRY = {}


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    pass


@dataclass
class Sub:
    prop: str
    name: str
    strategy: object
    fn: object
    quick: int
    thorough: int
    rule: str
    budget: float = 60.0
    thorough_budget: float = 600.0


def sub(prop, name, strategy, quick, thorough=None, rule="", budget=60.0, thorough_budget=420.0):
    """Decorator registering an evaluator; ``strategy`` is a zero-argument callable."""

    def deco(fn):
        s = Sub(prop, name, strategy, fn, quick, thorough or quick * 15, rule, budget, thorough_budget)
        subs = REGISTRY.setdefault(prop, {})
        assert name not in subs, name
        subs[name] = s
        return fn

    return deco


@dataclass
class Rec:
    """What an evaluator reports about the case it has just run."""

    nontrivial: bool = False
    labels: list = field(default_factory=list)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


def check(cond, msg):
    if not cond:
        raise Violation(msg)


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


class Failure:
    def __init__(self, case, exc):
        self.case = case
        self.kind = classify(exc)
        self.message = f"{type(exc).__name__}: {exc}"[:4000]
        self.traceback = "".join(
            traceback.format_exception(type(exc), exc, exc.__traceback__)
        )[-6000:]


def classify(exc):
    """
    'violation' for an oracle disagreement or for an exception raised on a valid input,
    'harness' when the harness itself is at fault (e.g. it uses a name which is gone).
    """
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, (HarnessError, MemoryError, ImportError, KeyboardInterrupt)):
        return "harness"
    frames = traceback.extract_tb(exc.__traceback__)
    pkg = str(bootstrap.REPO / "openamundsen")
    in_repo = any(f.filename.startswith(pkg) for f in frames)
    if in_repo:
        # A wrong-signature/missing-attribute error raised directly at the boundary belongs to us
        return "violation"
    if isinstance(exc, (AttributeError, NameError, TypeError)):
        return "harness"
    if isinstance(exc, OSError) and getattr(exc, "errno", None) in (28, 24, 12):
        return "harness"
    return "violation"


# File to which the case under evaluation is written, to identify a case which kills the process
CASE_FILE = None


def evaluate(s, case):
    rec = Rec()
    if CASE_FILE:
        with open(CASE_FILE, "w") as f:
            json.dump(dict(sub=s.name, case=case), f, default=str)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s.fn(case, rec)
    return rec


def search(s, n_examples, seed, budget, max_shrink=45):
    """Search sub-check ``s``; returns a dict with statistics and the shrunk failure (if any)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = max_shrink

    stats = dict(evaluations=0, skipped=0, keys=set(), labels=Counter(), samples=[])
    failing = {}
    t0 = time.monotonic()
    passed_budget = [False]
    # Time spent on evaluations; long ones (compilation by numba in a fresh sandbox) count only in part
    spent = [0.0]

    def run(case):
        if not failing and (spent[0] > budget or time.monotonic() - t0 > budget + 180):
            passed_budget[0] = True
            stats["skipped"] += 1
            return
        t1 = time.monotonic()
        try:
            rec = evaluate(s, case)
            spent[0] += min(time.monotonic() - t1, 2.0)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:  # noqa: BLE001
            f = Failure(case, e)
            failing["last"] = f
            if f.kind == "violation" and not isinstance(e, Violation):
                # normalise, so that shrinking does not depend on the exception type/origin
                raise Violation(f.message) from e
            raise
        if failing:
            return  # shrinking: do not distort the statistics
        stats["evaluations"] += 1
        stats["labels"].update(set(rec.labels))
        if rec.nontrivial:
            key = case_key(case)
            if key not in stats["keys"]:
                stats["keys"].add(key)
                if len(stats["samples"]) < 2:
                    stats["samples"].append(case)

    test = given(s.strategy())(run)
    test = settings(
        max_examples=n_examples,
        database=None,
        deadline=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=[
            HealthCheck.too_slow,
            HealthCheck.data_too_large,
            HealthCheck.large_base_example,
        ],
    )(test)
    test = hypothesis.seed(seed)(test)

    failure = None
    try:
        test()
    except Exception as e:  # noqa: BLE001
        if "last" in failing:
            failure = failing["last"]
            # confirm outside of hypothesis
            for _ in range(5):
                try:
                    evaluate(s, failure.case)
                except Exception as e2:  # noqa: BLE001
                    failure = Failure(failure.case, e2)
                    break
            else:
                # cases are pure functions of their data, i.e. the code itself is not deterministic
                failure.message = "not reproducible in 5 repetitions: " + failure.message
        else:
            failure = Failure(None, e)
            failure.kind = "harness"

    return dict(
        sub=s.name,
        evaluations=stats["evaluations"],
        skipped=stats["skipped"],
        keys=sorted(stats["keys"]),
        labels=dict(stats["labels"]),
        samples=stats["samples"],
        budget_exhausted=passed_budget[0],
        wall=time.monotonic() - t0,
        failure=None if failure is None else vars(failure),
    )
