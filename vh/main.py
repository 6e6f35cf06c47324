"""Entry point of the checks: orchestrates workers, writes evidence, reports the verdict."""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from collections import Counter
from pathlib import Path

from . import bootstrap

VERIF = bootstrap.VERIF
EVIDENCE = VERIF / "evidence"
N_WORKERS = int(os.environ.get("VH_WORKERS", "8"))
MAX_SAMPLES = 6
MAX_SAMPLE_CHARS = 2500
# SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV (not SIGKILL, which is how memory exhaustion ends)
CRASH_SIGNALS = {4, 6, 7, 8, 11}
CRASH_LIMIT = 240.0
HARD_LIMIT = {"quick": 780.0, "thorough": 6000.0}


def source_hash():
    h = hashlib.sha1()
    root = bootstrap.REPO / "openamundsen"
    for p in sorted(root.rglob("*")):
        if p.suffix in (".py", ".yml") and p.is_file():
            h.update(str(p.relative_to(root)).encode())
            h.update(p.read_bytes())
    return h.hexdigest()[:16]


def numba_cache_dir():
    """
    Cache of compiled functions, keyed by the content of the whole package: numba's own cache
    does not notice a change of a function which is called from a cached one in another module.
    """
    base = VERIF / ".cache"
    d = base / f"numba-{source_hash()}"
    base.mkdir(exist_ok=True)
    others = sorted(
        (p for p in base.glob("numba-*") if p != d), key=lambda p: p.stat().st_mtime, reverse=True
    )
    for p in others[6:]:
        shutil.rmtree(p, ignore_errors=True)
    d.mkdir(exist_ok=True)
    return str(d)


def sub_seed(seed, prop, name, worker):
    s = f"{seed}/{prop}/{name}/{worker}".encode()
    return int.from_bytes(hashlib.sha1(s).digest()[:6], "big")


def load_property(prop):
    bootstrap.setup()
    import importlib

    importlib.import_module(f"vh.checks.{prop.lower()}")
    from . import core

    return core


def list_subs(prop, env):
    """Metadata of the sub-checks (in a subprocess, so that this process stays light)."""
    code = (
        "import json,logging;logging.disable(50);from vh import core,bootstrap;import importlib;"
        f"importlib.import_module('vh.checks.{prop.lower()}');"
        f"print('@@'+json.dumps([dict(name=s.name,quick=s.quick,thorough=s.thorough,rule=s.rule,"
        f"budget=s.budget,thorough_budget=s.thorough_budget)"
        f" for s in core.REGISTRY['{prop}'].values()]))"
    )
    r = subprocess.run(
        [sys.executable, "-c", code], cwd=VERIF, env=env, capture_output=True, text=True
    )
    for line in r.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    raise SystemExit(f"cannot load check {prop}\n{r.stdout}\n{r.stderr}")


def saved_cases(prop, names):
    out = []
    d = VERIF / "corpus" / prop
    if d.is_dir():
        for p in sorted(d.glob("*.json")):
            c = json.loads(p.read_text())
            if c["sub"] in names:
                out.append(dict(sub=c["sub"], case=c["case"]))
    return out


def known_findings(prop):
    p = VERIF / "known_findings.jsonl"
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("property") == prop and e.get("status") == "known":
                    out.append(e)
    return out


def worker_env(scratch):
    env = dict(os.environ)
    env["NUMBA_CACHE_DIR"] = numba_cache_dir()
    env["TMPDIR"] = scratch
    env["PYTHONPATH"] = str(VERIF) + (":" + os.environ["VH_COVPATH"] if "VH_COVPATH" in os.environ else "")
    env.setdefault("PYTHONHASHSEED", "0")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return env


def run_workers(specs, env, limit, confirm_crashes=True):
    procs = []
    for sp in specs:
        errf = open(sp["out"] + ".err", "wb")
        procs.append(
            (
                sp,
                subprocess.Popen(
                    [sys.executable, "-m", "vh.worker", json.dumps(sp)],
                    cwd=VERIF,
                    env=env,
                    stdout=errf,
                    stderr=errf,
                    start_new_session=True,
                ),
            )
        )
    t_end = time.monotonic() + limit
    grace = None
    results = []
    pending = list(procs)
    timed_out = False
    crashed = None
    try:
        while pending:
            for item in list(pending):
                sp, p = item
                if p.poll() is None:
                    continue
                pending.remove(item)
                if os.path.exists(sp["out"]):
                    with open(sp["out"]) as f:
                        res = json.load(f)
                else:
                    with open(sp["out"] + ".err", errors="replace") as f:
                        err = f.read()[-3000:]
                    if -p.returncode in CRASH_SIGNALS:
                        crashed = crashed or sp
                    res = [worker_failure("harness", f"worker died with {p.returncode}", err)]
                results.append(res)
                if any(r["failure"] and r["failure"]["kind"] == "violation" for r in res):
                    # one confirmed violation decides; give the others a moment for a smaller one
                    grace = min(grace or 1e18, time.monotonic() + 5)
            now = time.monotonic()
            if pending and (now > t_end or (grace and now > grace)):
                timed_out = now > t_end
                break
            time.sleep(0.05)
    finally:
        for _, p in pending:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    if crashed is not None and confirm_crashes:
        found = any(r["failure"] and r["failure"]["kind"] == "violation" for res in results for r in res)
        if not found:
            res = confirm_crash(crashed, env)
            if res is not None:
                results.append([res])
    return results, timed_out


def worker_failure(kind, message, tb, sub="<worker>", case=None):
    return dict(sub=sub, evaluations=0, skipped=0, keys=[], labels={}, samples=[],
                budget_exhausted=False, wall=0.0,
                failure=dict(case=case, kind=kind, message=message, traceback=tb))


def confirm_crash(spec, env):
    """
    A worker has been killed by a memory fault (the compiled kernels of the model do not check
    array bounds).  Re-run the case it was at - or, since the damage may have been done by an earlier
    one, all its cases - with bounds checking on: it is a violation if the same process dies
    again or an access out of bounds is reported.
    """
    env = dict(env, NUMBA_BOUNDSCHECK="1", NUMBA_CACHE_DIR=env["NUMBA_CACHE_DIR"] + "-bounds")
    try:
        with open(spec["out"] + ".case") as f:
            last = json.load(f)
    except (OSError, ValueError):
        return None
    one = dict(spec, jobs=[dict(sub=last["sub"], case=last["case"])])
    for i, sp in enumerate((one, spec)):
        sp = dict(sp, out=f"{spec['out']}-crash{i}.json")
        results, _ = run_workers([sp], env, CRASH_LIMIT, confirm_crashes=False)
        for r in (r for res in results for r in res if r["failure"]):
            f = r["failure"]
            if f["kind"] == "violation":
                f["bounds"] = True
                return r
            if f["message"] in {f"worker died with {-n}" for n in CRASH_SIGNALS}:
                with open(sp["out"] + ".case") as fh:
                    last = json.load(fh)
                return worker_failure(
                    "violation", "the process is killed by a memory fault: " + f["message"],
                    f["traceback"], last["sub"], last["case"])
    return None


def trim(sample):
    s = json.dumps(sample, default=str)
    if len(s) <= MAX_SAMPLE_CHARS:
        return sample
    return s[:MAX_SAMPLE_CHARS] + "..."


def main(argv):
    if argv[:1] == ["--setup"]:
        bootstrap.setup()
        import hypothesis  # noqa: F401

        print("setup ok")
        return 0
    if argv[:1] == ["--replay"]:
        return replay(argv[1])

    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = argv[2].split(",") if len(argv) > 2 else None
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix=f"vh-{prop}-")
    try:
        bootstrap.ensure_deps()
        env = worker_env(scratch)
        subs = list_subs(prop, env)
        if only:
            subs = [s for s in subs if s["name"] in only]
        names = [s["name"] for s in subs]
        saved = saved_cases(prop, names)
        specs = []
        for w in range(N_WORKERS):
            jobs = saved[w::N_WORKERS]
            order = subs[w % len(subs):] + subs[: w % len(subs)]
            for s in order:
                n = -(-s[tier] // N_WORKERS)
                jobs.append(
                    dict(sub=s["name"], n=n, seed=sub_seed(seed, prop, s["name"], w),
                         budget=s["budget"] if tier == "quick" else s["thorough_budget"])
                )
            specs.append(
                dict(prop=prop, jobs=jobs, out=os.path.join(scratch, f"w{w}.json"),
                     scratch=os.path.join(scratch, f"s{w}"))
            )
        known = known_findings(prop)
        results, timed_out = run_workers(specs, env, HARD_LIMIT[tier])
        known_lines = check_known(prop, known, scratch, env)
        return report(prop, tier, seed, subs, results, timed_out, known_lines, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_known(prop, known, scratch, env):
    """Re-run every listed finding; print it if it is still there."""
    lines = []
    if not known:
        return lines
    jobs = [dict(sub=e["sub"], case=e["case"]) for e in known if "case" in e]
    for i, (e, job) in enumerate(zip([e for e in known if "case" in e], jobs)):
        sp = dict(prop=prop, jobs=[job], out=os.path.join(scratch, f"k{i}.json"),
                  scratch=os.path.join(scratch, f"ks{i}"))
        res, _ = run_workers([sp], env, 120)
        if any(r["failure"] for rr in res for r in rr):
            lines.append(f"KNOWN-FINDING: property={prop} {e['what']}")
    return lines


def report(prop, tier, seed, subs, results, timed_out, known_lines, t0):
    per = {}
    failures = []
    for res in results:
        for r in res:
            if r["failure"]:
                failures.append((r["sub"], r["failure"]))
            p = per.setdefault(
                r["sub"],
                dict(evaluations=0, keys=set(), labels=Counter(), samples=[], exhausted=False,
                     wall=0.0),
            )
            p["evaluations"] += r["evaluations"]
            p["keys"].update(r["keys"])
            p["labels"].update(r["labels"])
            p["samples"].extend(r["samples"][: 2 - len(p["samples"])])
            p["exhausted"] |= r["budget_exhausted"]
            p["wall"] = max(p["wall"], r["wall"])

    viol = [f for f in failures if f[1]["kind"] == "violation"]
    harness = [f for f in failures if f[1]["kind"] != "violation"]

    samples = []
    for s in subs:
        for c in per.get(s["name"], {}).get("samples", [])[:1]:
            samples.append(dict(sub=s["name"], case=trim(c)))
    coverage = dict(
        evaluations=sum(p["evaluations"] for p in per.values()),
        distinct_nontrivial=sum(len(p["keys"]) for p in per.values()),
        rule=" | ".join(f"[{s['name']}] {s['rule']}" for s in subs),
        samples=samples[:MAX_SAMPLES],
        sub_checks={
            n: dict(evaluations=p["evaluations"], distinct_nontrivial=len(p["keys"]),
                    labels=dict(p["labels"].most_common(40)), time_budget_hit=p["exhausted"],
                    slowest_worker_s=round(p["wall"], 1))
            for n, p in per.items()
        },
    )
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
        assumptions=[
            "generated-input search: absence of a counterexample is not a proof",
            "floating-point comparisons use the tolerances stated in DESIGN.md",
        ],
        wall_s=round(time.monotonic() - t0, 2), violations=len(viol),
    )
    EVIDENCE.mkdir(exist_ok=True)
    tmp = EVIDENCE / f".{prop}.json.tmp"
    tmp.write_text(json.dumps(ev, indent=1, default=str))
    os.replace(tmp, EVIDENCE / f"{prop}.json")

    for line in known_lines:
        print(line)
    print(
        f"{prop} {tier} seed={seed}: {coverage['evaluations']} cases, "
        f"{coverage['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s"
    )
    for n, p in per.items():
        print(f"  {n}: {p['evaluations']} cases, {len(p['keys'])} non-trivial, "
              f"{p['wall']:.1f} s{' (time budget hit)' if p['exhausted'] else ''}")

    if viol:
        viol.sort(key=lambda f: len(json.dumps(f[1]["case"], default=str)))
        name, f = viol[0]
        rdir = EVIDENCE / "replay"
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{prop}-{name}.json"
        path.write_text(
            json.dumps(dict(property=prop, sub=name, case=f["case"], message=f["message"]),
                       indent=1, default=str)
            if not f.get("bounds") else
            json.dumps(dict(property=prop, sub=name, case=f["case"], message=f["message"],
                            environment={"NUMBA_BOUNDSCHECK": "1"}), indent=1, default=str)
        )
        print(f["traceback"])
        print(f"sub-check {name}: {f['message']}")
        print(f"replay with: {VERIF}/run.sh --replay {path}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if harness:
        for name, f in harness:
            print(f"HARNESS ERROR in {name}: {f['message']}\n{f['traceback']}", file=sys.stderr)
        return 3
    if timed_out:
        print("inconclusive: the hard time limit was hit", file=sys.stderr)
        return 4
    return 0


def replay(path):
    c = json.loads(Path(path).read_text())
    os.environ["NUMBA_CACHE_DIR"] = numba_cache_dir()
    if c.get("environment"):
        os.environ.update(c["environment"])
        os.environ["NUMBA_CACHE_DIR"] += "-bounds"
    scratch = tempfile.mkdtemp(prefix="vh-replay-")
    tempfile.tempdir = scratch
    try:
        core = load_property(c["property"])
        s = core.REGISTRY[c["property"]][c["sub"]]
        try:
            core.evaluate(s, c["case"])
        except Exception as e:  # noqa: BLE001
            f = core.Failure(c["case"], e)
            print(f.traceback)
            if f.kind != "violation":
                print("harness error")
                return 3
            print(f"VIOLATION property={c['property']} replay={path}")
            return 1
        print("no violation")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
