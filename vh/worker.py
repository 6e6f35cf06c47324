"""Worker process: searches all sub-checks of one property with its own share of the cases."""
import importlib
import json
import os
import sys
import tempfile
import traceback

from . import bootstrap

bootstrap.setup()


def main():
    spec = json.loads(sys.argv[1])
    out = spec["out"]
    os.makedirs(spec["scratch"], exist_ok=True)
    tempfile.tempdir = spec["scratch"]
    os.chdir(spec["scratch"])
    results = []
    try:
        import logging

        logging.disable(logging.CRITICAL)
        from . import core

        core.CASE_FILE = out + ".case"
        mod = importlib.import_module(f"vh.checks.{spec['prop'].lower()}")
        subs = core.REGISTRY[spec["prop"]]
        import openamundsen

        if not openamundsen.__file__.startswith(str(bootstrap.REPO)):
            raise core.HarnessError(f"wrong openamundsen: {openamundsen.__file__}")
        for job in spec["jobs"]:
            s = subs[job["sub"]]
            if "case" in job:
                try:
                    core.evaluate(s, job["case"])
                    f = None
                except Exception as e:  # noqa: BLE001
                    f = vars(core.Failure(job["case"], e))
                results.append(
                    dict(sub=s.name, evaluations=1, skipped=0, keys=[core.case_key(job["case"])],
                         labels={"saved_case": 1}, samples=[], budget_exhausted=False, wall=0.0,
                         failure=f)
                )
            else:
                results.append(core.search(s, job["n"], job["seed"], job["budget"]))
            if results[-1]["failure"]:
                break
        del mod
    except BaseException as e:  # noqa: BLE001
        results.append(
            dict(sub="<worker>", evaluations=0, skipped=0, keys=[], labels={}, samples=[],
                 budget_exhausted=False, wall=0.0,
                 failure=dict(case=None, kind="harness", message=f"{type(e).__name__}: {e}",
                              traceback=traceback.format_exc()))
        )
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(results, f, default=str)
    os.replace(tmp, out)


if __name__ == "__main__":
    main()
