"""C29: a run is determined by its configuration and input files, however it is started."""
import contextlib
import copy
import datetime as dt
import os
import sys
from pathlib import Path

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st
from ruamel.yaml import YAML

import openamundsen as oa
from openamundsen import cli

from .. import full, lc, meteofiles, synth
from ..core import check, sub

SPELLINGS = {"h": ["1h", "60min"], "3h": ["180min"], "24h": ["D", "1D", "1440min"]}
WAYS = ["cli", "yaml", "repr", "parsed", "relative", "spelled", "copied", "memory"]


@st.composite
def start_cases(draw):
    case = draw(full.full_case(forcing="stations", nsteps=(3, 8), glaciers=False, missing=draw(st.sampled_from([0, 0, 6]))))
    case["format"] = draw(st.sampled_from(["netcdf", "csv"]))
    grids = draw(st.sampled_from(["netcdf", "ascii", "geotiff"]))
    variables = [dict(var="snow.swe"), dict(var="meteo.temp", name="t", agg="mean"), dict(var="meteo.precip", agg="sum", name="p", freq="D"), dict(var="surface.temp", dates=None)]
    variables = [{k: v for k, v in x.items() if v is not None} for x in draw(st.lists(st.sampled_from(variables), max_size=4, unique_by=str))]
    case["output"] = dict(
        timeseries=dict(format=draw(st.sampled_from(["csv", "netcdf"])), write_freq=draw(st.sampled_from(["D", "ME", "YE"]))),
        grids=dict(format=grids, variables=variables),
    )
    case["ways"] = sorted(draw(st.sets(st.sampled_from(WAYS), min_size=1, max_size=3)))
    case["spell"] = [draw(st.integers(0, 8)), draw(st.integers(0, 8)), draw(st.integers(0, 8))]
    return case


def write_meteo(d, case):
    dates = synth.dates_of(case)
    frames = [pd.DataFrame({k: synth.none_nan(v) for k, v in s["data"].items()}, index=dates) for s in case["stations"]]
    stations = [dict(s, name=s["id"].upper()) for s in case["stations"]]
    (meteofiles.write_csv if case["format"] == "csv" else meteofiles.write_netcdf)(os.path.join(d, "meteo"), stations, frames)


def base(d, case, results):
    over = dict(
        input_data=dict(meteo=dict(dir=os.path.join(d, "meteo"), format=case["format"])),
        results_dir=os.path.join(d, results),
        output_data=copy.deepcopy(case["output"]),
    )
    x, y = synth.cell_center(case, 0, 0)
    over["output_data"]["timeseries"]["points"] = [dict(x=x, y=y, name="corner")]
    cfg = synth.base_config(d, case, case["format"])
    del cfg["output_data"]
    if case["format"] == "csv":
        over["input_data"]["meteo"]["crs"] = synth.CRS
    return synth.deep_update(cfg, over)


def run(cfg, meteo=None):
    model = oa.OpenAmundsen(cfg if isinstance(cfg, oa.Configuration) else oa.Configuration.from_dict(cfg))
    model.initialize(meteo=meteo)
    model.run()
    return model


@contextlib.contextmanager
def at(directory):
    before = os.getcwd()
    os.chdir(directory)
    try:
        yield
    finally:
        os.chdir(before)


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


def write_yaml(path, cfg):
    with open(path, "w") as f:
        YAML(typ="safe", pure=True).dump(plain(cfg), f)


def contents(directory):
    """The contents of all output files."""
    out = {}
    for p in sorted(Path(directory).rglob("*")):
        if p.is_dir():
            continue
        name = str(p.relative_to(directory))
        if p.suffix == ".nc":
            with xr.open_dataset(p, decode_times=False) as ds:
                ds = ds.load()
            out[name] = {k: (v.dims, v.values, {a: b for a, b in v.attrs.items()}) for k, v in ds.variables.items()}
        else:
            out[name] = p.read_bytes()
    return out


def equal(a, b):
    if isinstance(a, bytes):
        return a == b
    if set(a) != set(b):
        return False
    for k in a:
        (d1, v1, a1), (d2, v2, a2) = a[k], b[k]
        if d1 != d2 or v1.dtype != v2.dtype or repr(a1) != repr(a2):
            return False
        if not np.array_equal(v1, v2, equal_nan=v1.dtype.kind == "f"):
            return False
    return True


def spelled(cfg, case):
    """Other spellings of the dates, the time step and the paths."""
    a, b, c = case["spell"]
    dates = synth.dates_of(case)
    ways = [str, lambda t: t.to_pydatetime(), lambda t: t, lambda t: t.strftime("%Y-%m-%d %H:%M"), lambda t: t.isoformat()]
    start, end = dates[0], dates[-1]
    cfg["start_date"] = ways[a % len(ways)](start)
    if start == start.normalize() and a > 5:
        cfg["start_date"] = start.date() if a == 6 else start.strftime("%Y-%m-%d")
    cfg["end_date"] = [ways[1], ways[2]][b % 2](end) if b > 4 else ways[3](end)
    s = SPELLINGS[case["timestep"]]
    cfg["timestep"] = s[c % len(s)]
    if a % 2:
        cfg["results_dir"] = cfg["results_dir"] + "/"
    return cfg


def starting(case, rec):
    case = dict(case, config=lc.with_int_classes(case["config"]))
    with synth.workdir() as d:
        synth.write_grids(d, case["res"], {"dem": case["dem"], **case["grids"]})
        write_meteo(d, case)
        cfg = base(d, case, "r0")
        given = copy.deepcopy(cfg)
        model = run(cfg)
        check(cfg == given, "the configuration passed was modified")
        ref, state = contents(os.path.join(d, "r0")), synth.all_vars(model)
        for i, way in enumerate(case["ways"]):
            name = f"r{i + 1}"
            cfg = base(d, case, name)
            other = None
            if way == "cli":
                fn = os.path.join(d, "config.yml")
                write_yaml(fn, cfg)
                argv = sys.argv
                sys.argv = ["openamundsen", fn]
                try:
                    cli.main()
                finally:
                    sys.argv = argv
            elif way == "yaml":
                fn = os.path.join(d, "config.yml")
                write_yaml(fn, cfg)
                other = run(oa.read_config(fn))
            elif way == "repr":
                other = run(oa.Configuration.from_yaml(repr(oa.Configuration.from_dict(cfg))))
            elif way == "parsed":
                other = run(oa.parse_config(oa.Configuration.from_dict(cfg)))
            elif way == "relative":
                cfg["results_dir"] = name
                cfg["input_data"]["meteo"]["dir"] = "meteo"
                cfg["input_data"]["grids"]["dir"] = "./grids"
                with at(d):
                    other = run(cfg)
            elif way == "spelled":
                other = run(spelled(cfg, case))
            elif way == "copied":
                # (all of the first run's output is there already)
                cfg["results_dir"] = os.path.join(d, "r0")
                name = "r0"
                other = run(cfg)
            elif way == "memory":
                if case["format"] == "csv":  # (the coordinates are rounded)
                    continue
                cfg["input_data"]["meteo"] = dict(format="memory")
                stations = [dict(s) for s in case["stations"]]
                meteo = synth.stations_dataset(case, stations)
                meteo["station_name"].values[:] = [s["id"].upper() for s in stations]
                other = run(cfg, meteo)
            got = contents(os.path.join(d, name))
            check(set(got) == set(ref), f"{way}: files {sorted(got)} instead of {sorted(ref)}")
            for k in ref:
                check(equal(ref[k], got[k]), f"{way}: {k} differs")
            if other is not None:
                bad = full.identical(state, synth.all_vars(other))
                check(not bad, f"{way}: {bad[:6]} differ at the end of the run")
            rec.label(way)
    rec.label(case["format"], *full.labels(case), *(k + ":" + case["output"][k]["format"] for k in case["output"]))
    rec.nt(len(ref) > 1 and bool(np.nanmax(np.abs(state["meteo.temp"]), initial=0) > 0))


sub("C29", "starting", start_cases, quick=200, thorough=3000, budget=50, rule="several output files and defined temperatures at the end")(starting)
