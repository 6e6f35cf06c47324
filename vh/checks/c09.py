"""C09: point outputs contain exactly the simulated values of every time step."""
import os

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from openamundsen import errors

from .. import gen, synth
from ..core import check, sub
from .c08 import STEPS, periods, same

VARS = ["meteo.temp", "meteo.precip", "snow.swe", "snow.num_layers", "snow.ice_content", "base.dem", "base.normal_vec", "meteo.sw_in", "surface.layer_type", "snow.temp", "snow.melt"]
FREQS = ["ME", "YE", "MS", "D", "h", "3h", "10h", "7D", "1D", "30min", "2D", "5D", "YE-SEP"]
DEFAULT_LAYERED = {"soil_temp": "soil.temp", "snow_temp": "snow.temp"}


def cell(case, x, y):
    """(row, col) of a point (metres relative to the lower left corner), or None outside the grid."""
    rows, cols = len(case["dem"]), len(case["dem"][0])
    col = int(np.floor(x / case["res"]))
    row = int(np.floor((rows * case["res"] - y) / case["res"]))
    return (row, col) if 0 <= row < rows and 0 <= col < cols else None


@st.composite
def coordinate(draw, n, res, outside):
    k = draw(st.integers(-1, n) if outside else st.integers(0, n - 1))
    return k * res + draw(st.sampled_from([0, 0.25, 0.5, 0.5, 0.75])) * res


@st.composite
def points(draw, case, max_points=4, outside=True):
    rows, cols, res = len(case["dem"]), len(case["dem"][0]), case["res"]
    out = []
    for i in range(draw(st.integers(1, max_points))):
        far = outside and draw(st.integers(0, 19)) == 0
        p = dict(x=draw(coordinate(cols, res, far)), y=draw(coordinate(rows, res, far)))
        if not far and p["y"] == 0:
            p["y"] = 0.25 * res  # (the lower border belongs to the next row)
        if draw(st.integers(0, 3)) == 0:
            p["name"] = draw(st.sampled_from(["p", "q", "point1", "point2", "a b", "007"]))
        out.append(p)
    return out


@st.composite
def cases(draw):
    case = draw(odd_periods())
    case.update(draw(gen.small_domain(missing=True)))
    case["points"] = draw(points(case))
    case["variables"] = [
        dict(var=v, name=f"v{i}") if draw(st.booleans()) else dict(var=v)
        for i, v in enumerate(draw(st.lists(st.sampled_from(VARS), min_size=1, max_size=4, unique=draw(st.integers(0, 9)) > 0)))
    ]
    case["defaults"] = draw(st.integers(0, 4)) == 0
    case["format"] = draw(st.sampled_from(["netcdf", "netcdf", "csv", "csv", "memory"]))
    case["write_freq"] = draw(st.sampled_from(FREQS))
    case["stale"] = draw(st.booleans())
    case["stop"] = draw(st.integers(1, case["nsteps"]))
    case["mode"] = draw(st.sampled_from(["single", "run"]))
    return case


ALL_STEPS = dict(STEPS, **{"5h": 5, "7h": 7, "5D": 120})


@st.composite
def odd_periods(draw):
    case = draw(periods(["h", "3h", "6h", "12h", "D", "30min"], lambda step: 40))
    if draw(st.integers(0, 4)) == 0:
        case["timestep"] = draw(st.sampled_from(["5h", "7h", "2D", "5D"]))
        start = pd.Timestamp(case["start"])
        case["start"] = str(start.normalize() + pd.Timedelta(hours=start.hour))
    return case


def axis(case):
    return list(pd.date_range(case["start"], periods=case["nsteps"], freq=case["timestep"]))


def names_of(case):
    """Point names in order, or None if the points have to be rejected."""
    out = []
    for i, p in enumerate(case["points"]):
        n = p.get("name", f"point{i + 1}")
        if n in out or cell(case, p["x"], p["y"]) is None:
            return None
        out.append(n)
    return out


def config(case):
    pts = [dict(p, x=p["x"] + synth.X0, y=p["y"] + synth.Y0) for p in case["points"]]
    return dict(
        output_data=dict(
            timeseries=dict(
                format=case["format"], write_freq=case["write_freq"], add_default_points=bool(case.get("stations")), add_default_variables=case["defaults"],
                points=pts, variables=case["variables"],
            )
        ),
        **gen.TI_SNOW,
    )


def read(case, res, names, model):
    """{point: {variable: array (time, ...)}}, times of the output written so far (None: nothing)."""
    layered = {n: len(synth.get(model, v)) for n, v in case["vars"].items() if synth.get(model, v).ndim == 3}
    if case["format"] == "csv":
        out, times = {}, None
        files = {x for x in os.listdir(res) if x.endswith(".csv")}
        if not files:
            return None, None
        check(files == {f"point_{n}.csv" for n in names}, f"files {sorted(files)} for points {names}")
        for n in names:
            df = pd.read_csv(os.path.join(res, f"point_{n}.csv"), index_col="time", parse_dates=["time"])
            t = list(df.index)
            check(times is None or t == times, "points have different dates")
            times = t
            cols = []
            d = {}
            for v in case["vars"]:
                c = [f"{v}{k}" for k in range(layered[v])] if v in layered else [v]
                cols += c
                d[v] = df[c].to_numpy(float) if v in layered else df[v].to_numpy(float)
            check(sorted(df.columns) == sorted(cols), f"columns {sorted(set(df.columns) ^ set(cols))}")
            out[n] = d
        return out, times
    if case["format"] == "memory":
        ds = model.point_output.data
    else:
        fn = os.path.join(res, "output_timeseries.nc")
        if not os.path.exists(fn):
            return None, None
        with xr.open_dataset(fn) as ds:
            ds.load()
    check(set(ds.data_vars) == set(case["vars"]), f"variables {set(ds.data_vars) ^ set(case['vars'])}")
    check([str(x) for x in ds.point.values] == names, f"points {list(ds.point.values)}")
    out = {}
    for n in names:
        one = ds.isel(point=names.index(n))
        d = {}
        for v in case["vars"]:
            a = one[v]
            x = a.values.astype(float)
            fill = a.attrs.get("_FillValue")
            if fill is not None and np.issubdtype(a.dtype, np.integer):
                x[a.values == fill] = np.nan
            check(x.ndim == 1 + (v in layered), f"{v} has shape {x.shape}")
            d[v] = x
            for k in ("units", "long_name", "standard_name"):
                check(a.attrs.get(k) == getattr(model.state.meta(case["vars"][v]), k), f"attribute {k} of {v}")
        out[n] = d
    return out, list(ds.indexes["time"])


def compare(case, model, truth, res, names, cells, final):
    got, times = read(case, res, names, model)
    dates = axis(case)
    if got is None:
        check(not final, "no output was written")
        return
    if case["format"] == "memory":
        check(times == dates, "dates of the in-memory output")
        times = times[: len(truth)]
    if final:
        check(times == dates, f"output has {len(times)} dates ({times[:2]}...) instead of {len(dates)}")
    check(times == dates[: len(times)] and len(times) <= len(truth), f"dates {times} are not the first ones of the run")
    for n, rc in zip(names, cells):
        for v, var in case["vars"].items():
            exp = np.array([t[var][(..., *rc)] for t in truth[: len(times)]], dtype=float)
            same(got[n][v][: len(times)], exp, f"{v} at {n}")


def run_and_compare(case, model, names, cells):
    res = str(model.config.results_dir)
    truth = []
    orig = model.point_output.update

    def update():
        # (the values at the end of the step)
        truth.append(synth.snap(model, set(case["vars"].values())))
        orig()

    model.point_output.update = update
    if case["mode"] == "run":
        model.run()
    else:
        for i in range(case["nsteps"]):
            model.run_single()
            end = synth.snap(model, set(case["vars"].values()))
            for k, v in end.items():
                check(np.array_equal(v, truth[-1][k], equal_nan=True), f"{k} was written before the end of the time step")
            if i + 1 == case["stop"] and not case.get("stale"):
                compare(case, model, truth, res, names, cells, False)
    compare(case, model, truth, res, names, cells, True)


def resolved(case):
    """Output name -> variable, or None if names are ambiguous."""
    out = {}
    for v in case["variables"]:
        n = v.get("name", v["var"].split(".")[-1])
        if n in out:
            return None
        out[n] = v["var"]
    return out


def values(case, rec):
    names = names_of(case)
    cells = [cell(case, p["x"], p["y"]) for p in case["points"]]
    case = dict(case, vars=resolved(case))
    ok = names is not None and case["vars"] is not None
    step = pd.Timedelta(hours=ALL_STEPS[case["timestep"]])
    if step > pd.Timedelta(days=1):
        case["write_freq"] = str(int(ALL_STEPS[case["timestep"]]) * (1 + case["stop"] % 3)) + "h"
    rec.label(case["format"], case["timestep"])
    with synth.workdir() as d:
        synth.write_grids(d, case["res"], {"dem": case["dem"], **case["grids"]})
        cfg = synth.base_config(d, case, "callback", config(case))
        if case["stale"]:
            leave_stale(cfg["results_dir"], case)
        model = synth.make_model(cfg)
        try:
            model.initialize(meteo_callback=synth.column_callback(case))
        except errors.ConfigurationError as e:
            if case["defaults"] and "uplicate" in str(e):
                return  # (clash with the name of a default variable)
            check(not ok, f"valid output points rejected: {e}")
            rec.label("rejected")
            return
        check(ok, f"invalid points or variables accepted: {case['points']}, {case['variables']}")
        if case["defaults"]:
            for v in model.point_output.vars:
                case["vars"].setdefault(v.output_name, v.var_name)
        run_and_compare(case, model, names, cells)
    rec.nt(case["nsteps"] > 3 and case["format"] != "memory")


def leave_stale(res, case):
    """Output files of another run in the results directory."""
    os.makedirs(res, exist_ok=True)
    if case["format"] == "csv":
        for n in names_of(case) or []:
            with open(os.path.join(res, f"point_{n}.csv"), "w") as f:
                f.write("time,temp\n1999-01-01 00:00:00,1.5\n")
    elif case["format"] == "netcdf":
        ds = xr.Dataset({"temp": (("time", "point"), np.ones((1, 1)))}, coords=dict(time=pd.to_datetime(["1999-01-01"]), point=["p"]))
        ds.to_netcdf(os.path.join(res, "output_timeseries.nc"))


sub("C09", "values", cases, quick=300, thorough=5000, budget=45, rule="more than 3 time steps written to files")(values)


# ---------------------------------------------------------------- stations
@st.composite
def station_cases(draw):
    case = draw(periods(["3h", "D"], lambda step: 6))
    case.update(draw(gen.small_domain(max_columns=1)))
    rows, cols, res = len(case["dem"]), len(case["dem"][0]), case["res"]
    n = draw(st.integers(1, 4))
    case["stations"] = [
        dict(
            id=sid, x=draw(coordinate(cols, res, True)) + 1, y=draw(coordinate(rows, res, True)) + 1, alt=2000.0,
            data={k: [v] * case["nsteps"] for k, v in dict(temp=270.0 + i, precip=1.0, rel_hum=80.0, wind_speed=2.0, sw_in=0.0).items()},
        )
        for i, sid in enumerate(draw(st.lists(st.sampled_from(["a", "b", "z", "point1", "007", "p"]), unique=True, min_size=n, max_size=n)))
    ]
    case["points"] = draw(st.one_of(st.just([]), points(case, max_points=2, outside=False)))
    case["variables"] = [dict(var="snow.swe"), dict(var="meteo.temp")]
    case["defaults"] = False
    case["format"] = draw(st.sampled_from(["netcdf", "csv", "memory"]))
    case["write_freq"] = draw(st.sampled_from(["ME", "D"]))
    case["stop"] = 1
    case["mode"] = "single"
    return case


def station_points(case, rec):
    case = dict(case, vars=resolved(case), config=dict(input_data=dict(meteo=dict(bounds="global"))))
    roi = np.array(case["grids"].get("roi", np.ones((len(case["dem"]), len(case["dem"][0])))), dtype=bool)
    inside = [(s["id"], cell(case, s["x"], s["y"])) for s in case["stations"]]
    inside = [(n, rc) for n, rc in inside if rc is not None and roi[rc]]
    names = [n for n, _ in inside]
    user = [p.get("name", f"point{i + 1}") for i, p in enumerate(case["points"])]
    cells = [rc for _, rc in inside] + [cell(case, p["x"], p["y"]) for p in case["points"]]
    ok = len(set(names + user)) == len(names + user)
    rec.nt(len(inside) > 0)
    try:
        with synth.station_model(case, config(case)) as model:
            check(ok, f"duplicate point names accepted: {names + user}")
            order = [p.name for p in model.point_output.points]
            check(sorted(order) == sorted(names + user), f"output points {order} instead of {names + user}")
            cells = [cells[(names + user).index(n)] for n in order]
            if order:
                run_and_compare(case, model, order, cells)
    except errors.ConfigurationError:
        check(not ok, "valid points rejected")


sub("C09", "station_points", station_cases, quick=60, thorough=1000, budget=20, rule="a station within the region of interest")(station_points)
