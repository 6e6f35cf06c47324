"""C12: runs are reproducible and independent of how they are executed."""
import copy
import pickle

import numba
import numpy as np
from hypothesis import strategies as st

from openamundsen import errors

from .. import full, gen, lc, synth
from ..core import check, sub

OUTPUTS = dict(
    output_data=dict(
        timeseries=dict(format="csv", add_default_variables=True, write_freq="D", points=[]),
        grids=dict(
            format="netcdf",
            variables=[dict(var="snow.swe"), dict(var="meteo.temp", name="t", agg="mean"), dict(var="meteo.precip", name="psum", agg="sum", freq="D"), dict(var="snow.temp", name="st")],
        ),
    )
)


def trace(model, mode="single"):
    """All state variables after every step."""
    out = []
    if mode == "run":
        orig = model.gridded_output.update

        def update():
            orig()
            out.append(synth.all_vars(model))

        model.gridded_output.update = update
        model.run()
    else:
        for _ in model.dates:
            model.run_single()
            out.append(synth.all_vars(model))
    return out


def compare(a, b, what, keep=None):
    check(len(a) == len(b), f"{what}: {len(b)} steps instead of {len(a)}")
    for i, (x, y) in enumerate(zip(a, b)):
        check(set(x) == set(y), f"{what}: different state variables {set(x) ^ set(y)}")
        bad = full.identical(x, y)
        check(not bad, f"{what}: {bad[:5]} differ at step {i}")


@st.composite
def mode_cases(draw):
    case = draw(full.full_case(missing=draw(st.sampled_from([0, 0, 8])), nsteps=(2, 8), max_rows=5, max_cols=5))
    case["modes"] = sorted(draw(st.sets(st.sampled_from(["repeat", "run", "threads", "outputs", "same-directory", "logging", "pickle", "deepcopy"]), min_size=2, max_size=4)))
    case["threads"] = draw(st.sampled_from([2, 3, 8, None, "auto"]))
    case["at"] = draw(st.integers(0, case["nsteps"] - 1))
    return case


THREADS = min(5, numba.config.NUMBA_NUM_THREADS)


def modes(case, rec):
    numba.set_num_threads(THREADS)
    meteo = synth.stations_dataset(case) if "stations" in case else None
    before = meteo.copy(deep=True) if meteo is not None else None
    with full.open_model(case, meteo=meteo) as m:
        nt = numba.get_num_threads()
        ref = trace(m)
        check(numba.get_num_threads() == nt, "number of threads not restored")
        for fn in (m.run_single, m.run):
            end = synth.all_vars(m)
            try:
                fn()
            except errors.OpenAmundsenRuntimeError:
                pass
            else:
                check(False, "a finished run was continued")
            check(not full.identical(end, synth.all_vars(m)), "a finished run was changed")
            check(numba.get_num_threads() == nt, "number of threads not restored after an error")
    if meteo is not None:
        check(meteo.identical(before), "the forcing dataset was modified")
    for mode in case["modes"]:
        over = {}
        if mode == "threads":
            over = dict(numba_threads=case["threads"])
        elif mode == "outputs":
            over = copy.deepcopy(OUTPUTS)
            x, y = synth.cell_center(case, 0, 0)
            over["output_data"]["timeseries"]["points"] = [dict(x=x, y=y, name="p")]
        elif mode == "logging":
            over = dict(log_level="ERROR", enable_default_logging=True)
        if mode == "same-directory":
            other = twice(case)
        elif mode in ("pickle", "deepcopy"):
            other = copied(case, mode)
            if other is None:
                continue
        else:
            with full.open_model(case, over) as m:
                other = trace(m, "run" if mode == "run" else "single")
        compare(ref, other, mode)
        rec.label(mode)
    rec.label(*full.labels(case))
    rec.nt(case["nsteps"] > 2)


def twice(case):
    """Second run in the directory of a previous one."""
    case = dict(case, config=lc.with_int_classes(case["config"]))
    with synth.workdir() as d:
        synth.write_grids(d, case["res"], {"dem": case["dem"], **case["grids"]})
        for _ in range(2):
            cfg = synth.base_config(d, case, "memory" if "stations" in case else "callback")
            model = synth.make_model(cfg)
            if "stations" in case:
                model.initialize(meteo=synth.stations_dataset(case))
            else:
                model.initialize(meteo_callback=synth.column_callback(case))
            full.add_ice(case, model)
            out = trace(model)
    return out


def copied(case, mode):
    """Run which is continued with a copy of the model (as when passing it to another process)."""
    if mode == "pickle" and "stations" not in case:
        return None
    out = []
    with full.open_model(case) as m:
        for i in range(case["nsteps"]):
            if i == case["at"]:
                m = pickle.loads(pickle.dumps(m)) if mode == "pickle" else copy.deepcopy(m)
            m.run_single()
            out.append(synth.all_vars(m))
    return out


sub("C12", "modes", mode_cases, quick=70, thorough=1200, budget=45, rule="more than two time steps")(modes)


# ---------------------------------------------------------------- interleaved instances
@st.composite
def interleavings(draw):
    n = draw(st.integers(2, 3))
    cases = [draw(full.full_case(nsteps=(2, 5), missing=draw(st.sampled_from([0, 0, 8])))) for _ in range(n)]
    if draw(st.booleans()):
        # almost the same simulation: other terrain, weather, or parameters
        first = cases[0]
        if draw(st.booleans()):
            first["start"] = first["start"][:10] + draw(st.sampled_from([" 07:00", " 09:00", " 16:00"]))
            first["timestep"] = "h"
        rows, cols = len(first["dem"]), len(first["dem"][0])
        for k in range(1, n):
            other = copy.deepcopy(first)
            change = draw(st.sampled_from(["dem", "dem", "weather", "albedo", "svf", "start"]))
            if change == "dem":
                other["dem"] = draw(gen.dem(rows, cols))
            elif change == "weather" and "columns" in other:
                other["columns"] = draw(st.lists(gen.winter_column(nmax=5), min_size=1, max_size=4))
            elif change == "start":
                other["start"] = other["start"].replace("2020", "2021") if "2020" in other["start"] else other["start"]
            elif change == "svf":
                other["grids"]["svf"] = [[0.5] * cols for _ in range(rows)]
            else:
                other["config"]["snow"].setdefault("albedo", {}).update(max=0.7, min=0.4)
                other["config"]["soil"] = dict(albedo=0.3)
            cases[k] = other
        if draw(st.booleans()):
            # in lockstep
            steps = [list(range(n))[:: draw(st.sampled_from([1, -1]))] for _ in range(max(c["nsteps"] for c in cases) + 1)]
            return dict(cases=cases, schedule=[k for s in steps for k in s], threads=[1] * n)
    left = [c["nsteps"] for c in cases]
    schedule = []
    opened = set()
    while any(left) or len(opened) < n:
        k = draw(st.sampled_from([i for i in range(n) if left[i] or i not in opened]))
        schedule.append(k)
        if k in opened:
            left[k] -= 1
        opened.add(k)
    return dict(cases=cases, schedule=schedule, threads=[draw(st.sampled_from([1, 2, None])) for _ in range(n)])


def interleaved(case, rec):
    """Several instances in one process, initialized and stepped in an arbitrary order."""
    import contextlib

    refs = []
    for c in case["cases"]:
        with full.open_model(c) as m:
            refs.append(trace(m))
    with contextlib.ExitStack() as stack:
        models, pos = {}, {}
        for k in case["schedule"]:
            c = case["cases"][k]
            if k not in models:
                models[k] = stack.enter_context(full.open_model(c, dict(numba_threads=case["threads"][k])))
                pos[k] = 0
                continue
            if pos[k] == c["nsteps"]:
                continue
            models[k].run_single()
            bad = full.identical(refs[k][pos[k]], synth.all_vars(models[k]))
            check(not bad, f"instance {k}: {bad[:5]} differ at step {pos[k]} when other instances are run in between")
            pos[k] += 1
    switches = sum(a != b for a, b in zip(case["schedule"], case["schedule"][1:]))
    rec.nt(switches > 2)


sub("C12", "interleaved", interleavings, quick=200, thorough=700, budget=30, rule="more than two switches between instances")(interleaved)


# ---------------------------------------------------------------- errors
@st.composite
def error_cases(draw):
    case = draw(full.full_case(forcing="columns", nsteps=(2, 5), snow="cryolayers"))
    case["at"] = draw(st.integers(0, case["nsteps"] - 1))
    return case


def failing_step(case, rec):
    """An error in a time step does not affect other instances."""
    numba.set_num_threads(THREADS)
    with full.open_model(case) as m:
        ref = trace(m)
    nt = numba.get_num_threads()
    base = synth.column_callback(case)

    def callback(model):
        if model.date_idx == case["at"]:
            raise RuntimeError("no data")
        base(model)

    with full.open_model(case, dict(numba_threads=1 if nt != 1 else None), callback=callback) as m:
        try:
            for _ in m.dates:
                m.run_single()
        except RuntimeError as e:
            check(str(e) == "no data" or "no data" in str(e), f"unexpected error {e}")
        else:
            check(False, "error was swallowed")
    check(numba.get_num_threads() == nt, f"number of threads changed from {nt} to {numba.get_num_threads()} after an error")
    with full.open_model(case) as m:
        compare(ref, trace(m), "after a failed run")
    rec.nt(case["at"] > 0)


sub("C12", "failing_step", error_cases, quick=16, thorough=200, budget=15, rule="the error occurs after the first step")(failing_step)
