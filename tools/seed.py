"""
Plants a bug: seed.plant(id, property, needs, breaks, edits, demo) writes seeded/<id>/ after confirming in
a scratch copy that the tests pass and that the demonstration fails only with the change; then runs the check.
"""
import json
import os
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parents[1]
DEMO_SH = """#!/bin/bash
# exit 0 if the behaviour is right, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="$PWD" NUMBA_CACHE_DIR="$scratch/numba" TMPDIR="$scratch" PYTHONDONTWRITEBYTECODE=1
export SETUPTOOLS_SCM_PRETEND_VERSION=1.0.0
/opt/venv/bin/python -W ignore "$here/demo.py"
"""
CLEAN = {}


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def passed(repo, tmp):
    txt = Path("/opt/vp/test.sh").read_text().replace("cd /repo", f"cd {repo}")
    t = Path(tmp) / "test.sh"
    t.write_text(txt)
    out = Path(tmp) / "out.json"
    sh(["bash", str(t), str(out)], env={"PYTHONPATH": str(repo)})
    r = json.loads(out.read_text())
    base = json.loads(Path("/opt/vp/BASELINE.json").read_text())
    names = base.get("stable") or base.get("passed") or base["tests"]
    ok = set(r["passed"])
    return [n for n in names if n not in ok]


def plant(id, prop, needs, breaks, edits, demo, run_check=True, keep=True, seeds=(1,)):
    tmp = tempfile.mkdtemp(prefix=f"seed-{id}-")
    try:
        repo = Path(tmp) / "repo"
        subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
        for f, old, new in edits:
            p = repo / f
            s = p.read_text()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = sh(["git", "diff"], cwd=repo).stdout
        assert diff
        d = Path(tmp) / "seed"
        d.mkdir()
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(DEMO_SH)
        (d / "demo.py").write_text(demo)
        if re.search(r"\bmini\b", demo):
            shutil.copy(V / "tools" / "mini.py", d / "mini.py")
        (d / "meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")
        missing = passed(repo, tmp)
        clean = sh(["bash", str(d / "demo.sh")], cwd="/repo")
        bad = sh(["bash", str(d / "demo.sh")], cwd=repo)
        ok = not missing and clean.returncode == 0 and bad.returncode != 0
        print(f"{id}: tests missing {missing}; demo clean {clean.returncode}, patched {bad.returncode}")
        if not ok:
            print(clean.stdout[-1500:], clean.stderr[-1500:], "----", bad.stdout[-1500:], bad.stderr[-1500:])
            return False
        print("   demo says:", (bad.stdout.strip() or bad.stderr.strip())[-200:])
        if keep:
            dst = V / "seeded" / id
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
        if run_check:
            for seed in seeds:
                r = sh([str(V / "run.sh"), prop, "quick"], env={"VH_REPO": str(repo), "VERIF_SEED": str(seed)})
                line = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "sub-check"))]
                print(f"   check seed {seed}: exit {r.returncode}", *[x[:300] for x in line], sep="\n     ")
                if r.returncode not in (0, 1):
                    print(r.stderr[-1500:])
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
