"""C08: gridded outputs contain exactly the simulated fields and aggregates."""
import datetime as dt
import os

import numpy as np
import pandas as pd
import rasterio
import xarray as xr
from hypothesis import strategies as st

from openamundsen import errors, util

from .. import gen, synth
from ..core import check, sub

STEPS = {"h": 1, "2h": 2, "3h": 3, "6h": 6, "12h": 12, "D": 24, "24h": 24, "30min": 0.5, "2D": 48}
PIVOTS = ["2019-12-31", "2020-02-29", "2020-12-31", "2021-02-28", "2021-03-31", "2020-10-01", "2020-01-15"]
VARS = ["meteo.temp", "meteo.precip", "snow.swe", "snow.num_layers", "snow.ice_content", "base.dem", "base.normal_vec", "meteo.sw_in", "surface.layer_type", "snow.temp"]
WEATHER = [[dict(n=1, t=270.0, p=1.0, rh=80.0, u=2.0, cf=0.5, cl=0.5)]]


def span(case):
    step = dt.timedelta(hours=STEPS[case["timestep"]])
    start = dt.datetime.fromisoformat(case["start"])
    return [start + i * step for i in range(case["nsteps"])], step


@st.composite
def periods(draw, timesteps, nmax):
    timestep = draw(st.sampled_from(timesteps))
    step = dt.timedelta(hours=STEPS[timestep])
    pivot = dt.datetime.fromisoformat(draw(st.sampled_from(PIVOTS)))
    hour = draw(st.sampled_from([0, 0, 0, 1, 3, 6, 11, 12, 23, 0.5]))
    n = draw(st.integers(1, nmax(step)))
    start = pivot + dt.timedelta(hours=hour) - draw(st.integers(0, n)) * step
    return dict(timestep=timestep, start=start.isoformat(sep=" "), nsteps=n)


def month_of(d, months, shift):
    """Index of the calendar period (months: its length, shift: the first month) containing d."""
    return (d.year * 12 + d.month - 1 - shift) // months


ANCHORED = {"ME": (1, 0), "YE": (12, 0), "YE-SEP": (12, 9), "MS": (1, 0), "YS": (12, 0), "YS-OCT": (12, 9)}
TICKS = {"h": 1, "3h": 3, "6h": 6, "12h": 12, "D": 24, "24h": 24, "2D": 48, "5D": 120, "90min": 1.5, "30min": 0.5}


def ref_dates(dates, step, freq, agg):
    """
    (output dates, determined): dates at which a field with the given output frequency has to be
    written, or None if the frequency cannot be used.
    """
    if freq is None:
        return dates, True
    if freq in TICKS:
        f = dt.timedelta(hours=TICKS[freq])
        k = f / step
        if k < 1 or k != int(k):
            return None, True
        k = int(k)
        return (dates[k - 1 :: k] if agg else dates[::k]), True
    if freq not in ANCHORED:
        return None, True
    per = [month_of(d, *ANCHORED[freq]) for d in dates]
    if freq.startswith(("ME", "YE")):
        if agg and step > dt.timedelta(days=1):
            return None, True
        nxt = [month_of(d + step, *ANCHORED[freq]) for d in dates]
        return [d for d, a, b in zip(dates, per, nxt) if a != b], True
    if agg:
        return None, True
    prev = [month_of(d - step, *ANCHORED[freq]) for d in dates]
    first = [d for d, a, b in zip(dates, per, prev) if a != b]
    # determined unless the first step of the days is not at the time of day of the start
    t = dt.timedelta(hours=dates[0].hour, minutes=dates[0].minute)
    return first, t < step <= dt.timedelta(days=1)


@st.composite
def date_cases(draw):
    case = draw(periods(list(STEPS), lambda step: max(1, int(dt.timedelta(days=400) / step / draw(st.sampled_from([1, 4, 20]))))))
    case["freq"] = draw(st.sampled_from([None, *ANCHORED, *ANCHORED, *TICKS, "W", "foo", "QE", "BME", "0h", "-3h"]))
    case["agg"] = draw(st.sampled_from([None, "sum", "mean"]))
    return case


def output_dates(case, rec):
    dates, step = span(case)
    exp, determined = ref_dates(dates, step, case["freq"], case["agg"] is not None)
    field = dict(var="meteo.temp")
    if case["freq"] is not None:
        field["freq"] = case["freq"]
    if case["agg"]:
        field["agg"] = case["agg"]
    tc = dict(case, res=50, dem=[[1500.0]], columns=WEATHER)
    over = dict(output_data=dict(grids=dict(format="memory", variables=[field])), **gen.TI_SNOW)
    over["output_data"]["timeseries"] = dict(write_freq=f"{int(step.total_seconds() // 60)}min")
    rec.label(str(case["freq"]), case["timestep"])
    try:
        with synth.column_model(tc, over) as model:
            model.run_single()
            ds = model.gridded_output.data
    except (errors.ConfigurationError, ValueError, NotImplementedError) as e:
        check(exp is None, f"output frequency {case['freq']} rejected: {e}")
        rec.nt(exp is None)
        return
    check(exp is not None, f"output frequency {case['freq']} accepted for time step {case['timestep']}")
    if not determined:
        return
    if not exp:
        check(ds is None or "temp" not in ds, "output without output dates")
        return
    check(ds is not None and "temp" in ds, f"no output in spite of output dates {exp[:3]}")
    got = [t.to_pydatetime() for t in ds.temp[ds.temp.dims[0]].to_index()]
    check(got == exp, f"output dates {[str(x) for x in got[:5]]} ({len(got)}) instead of {[str(x) for x in exp[:5]]} ({len(exp)})")
    if case["agg"]:
        bounds = [[pd.Timestamp(x).to_pydatetime() for x in b] for b in ds["time_bounds"].values]
        check(bounds == [[a, b] for a, b in zip([dates[0], *exp[:-1]], exp)], "time bounds")
    rec.nt(case["freq"] in ANCHORED)


sub("C08", "output_dates", date_cases, quick=150, thorough=1500, budget=25,
    rule="calendar (month/year) frequency, or a frequency which must be rejected")(output_dates)


# ---------------------------------------------------------------- values
@st.composite
def value_cases(draw):
    case = draw(periods(["h", "3h", "6h", "12h", "D"], lambda step: 24))
    case.update(draw(gen.small_domain(missing=True)))
    dates, step = span(case)
    fields = []
    for i in range(draw(st.integers(1, 4))):
        f = dict(var=draw(st.sampled_from(VARS)), name=f"f{i}", agg=draw(st.sampled_from([None, "sum", "mean"])))
        kind = draw(st.sampled_from(["freq", "freq", "dates", "default"]))
        if kind == "freq":
            ok = [q for q in [*TICKS, "ME", "YE"] if ref_dates(dates, step, q, f["agg"] is not None)[0]]
            if ok:
                f["freq"] = draw(st.sampled_from(ok))
        elif kind == "dates":
            idx = draw(st.lists(st.integers(-2, len(dates) + 1), min_size=1, max_size=6))
            f["dates"] = [(dates[0] + j * step).isoformat(sep=" ") for j in idx]
        fields.append({k: v for k, v in f.items() if v is not None})
    case["fields"] = fields
    case["format"] = draw(st.sampled_from(["netcdf", "netcdf", "memory", "ascii", "geotiff"]))
    case["layout"] = draw(st.sampled_from(["grid", "roi_pixel"])) if case["format"] in ("netcdf", "memory") else "grid"
    case["compress"] = draw(st.booleans())
    case["append"] = draw(st.booleans())
    case["stop"] = draw(st.integers(1, case["nsteps"]))
    return case


def wanted(case, f):
    dates, step = span(case)
    if "dates" in f:
        ds = sorted({dt.datetime.fromisoformat(x) for x in f["dates"]})
        return [d for d in ds if dates[0] <= d <= dates[-1]]
    return ref_dates(dates, step, f.get("freq"), "agg" in f)[0]


def expected(case, f, truth, roi):
    """List of (start, date, field) of the values to be written."""
    dates, step = span(case)
    out = []
    prev = -1
    for d in wanted(case, f):
        i = dates.index(d)
        if "agg" not in f:
            v = truth[i][f["var"]].astype(float)
        else:
            stack = np.stack([truth[j][f["var"]].astype(float) for j in range(prev + 1, i + 1)])
            v = stack.sum(axis=0) if f["agg"] == "sum" else stack.mean(axis=0)
            v[..., ~roi] = np.nan
        out.append((dates[prev + 1], d, v))
        prev = i
    return out


def same(got, exp, what):
    got = np.asarray(got, dtype=float)
    check(got.shape == exp.shape, f"{what}: shape {got.shape} instead of {exp.shape}")
    scale = max(1.0, float(np.nanmax(np.abs(exp))) if np.isfinite(exp).any() else 1.0)
    bad = ~((np.isnan(got) & np.isnan(exp)) | (np.abs(got - exp) <= 3e-7 * np.abs(exp) + 2e-9 * scale))
    check(not bad.any(), f"{what}: {got[bad][:3]} instead of {exp[bad][:3]} ({int(bad.sum())} of {bad.size} values)")


def masked(da):
    """Values of a data array with missing values as NaN."""
    v = da.values
    fill = da.attrs.get("_FillValue", da.encoding.get("_FillValue"))
    out = v.astype(float)
    if fill is not None and np.issubdtype(v.dtype, np.integer):
        out[v == fill] = np.nan
    return out


def compare_dataset(ds, case, model, truth, done, whole):
    roi = model.grid.roi
    names = [f["name"] for f in case["fields"] if wanted(case, f)]
    if not names:
        check(ds is None or not set(ds.data_vars), f"unexpected outputs {ds}")
        return
    check(set(ds.data_vars) == set(names), f"output variables {set(ds.data_vars)} instead of {set(names)}")
    for f in case["fields"]:
        exp = expected(case, f, truth, roi) if f["name"] in names else []
        if not exp:
            continue
        da = ds[f["name"]]
        time = da.dims[0]
        n = len(exp)
        if not whole:
            exp = [e for e in exp if e[1] <= done]
        times = [t.to_pydatetime() for t in da[time].to_index()]
        if whole or not (case["format"] == "netcdf" and case["append"]):
            check(len(times) == n, f"{f['name']}: {len(times)} output dates instead of {n}")
        check(times[: len(exp)] == [e[1] for e in exp], f"{f['name']}: output dates {times} instead of {[e[1] for e in exp]}")
        if "agg" in f:
            b = ds[da[time].attrs["bounds"]].values if whole else ds[f"{time}_bounds"].values
            start = span(case)[0][0]
            for i, e in enumerate(exp):
                lo = start if i == 0 else exp[i - 1][1]
                check([pd.Timestamp(x).to_pydatetime() for x in b[i]] == [lo, e[1]], f"{f['name']}: time bounds {b[i]} instead of {lo}, {e[1]}")
        meta = model.state.meta(f["var"])
        for a in ("units", "long_name", "standard_name"):
            check(da.attrs.get(a) == getattr(meta, a), f"{f['name']}: attribute {a} is {da.attrs.get(a)!r}")
        vals = masked(da)
        for i, (_, d, v) in enumerate(exp):
            if case["layout"] == "roi_pixel" and "pixel" in da.dims:
                v = v[..., roi]
            same(vals[i], v, f"{f['name']} ({f['var']}, agg={f.get('agg')}) at {d}")
        if case["layout"] == "roi_pixel" and "pixel" in da.dims:
            check(list(da.pixel.values) == list(np.flatnonzero(roi.ravel())), "pixel indices")
        elif "x" in da.dims:
            check(np.array_equal(da.x.values, model.grid.X[0]) and np.array_equal(da.y.values, model.grid.Y[:, 0]), "coordinates")


def values(case, rec):
    cfg = dict(
        output_data=dict(
            grids=dict(format=case["format"], layout=case["layout"], compress=case["compress"], append=case["append"], variables=case["fields"])
        ),
        **gen.TI_SNOW,
    )
    dates, step = span(case)
    rec.label(case["format"], case["layout"])
    with synth.column_model(case, cfg) as model:
        roi = model.grid.roi
        res = str(model.config.results_dir)
        truth = []
        for i in range(case["nsteps"]):
            model.run_single()
            truth.append(synth.snap(model, {f["var"] for f in case["fields"]}))
            if i + 1 not in (case["stop"], case["nsteps"]):
                continue
            whole = i + 1 == case["nsteps"]
            if not whole:
                # (the values of intervals which are not complete are not compared)
                padded = truth + [truth[-1]] * (case["nsteps"] - len(truth))
            else:
                padded = truth
            if case["format"] == "memory":
                compare_dataset(model.gridded_output.data, case, model, padded, dates[i], whole)
            elif case["format"] == "netcdf":
                fn = os.path.join(res, "output_grids.nc")
                if not any(wanted(case, f) for f in case["fields"]):
                    check(not os.path.exists(fn), "output file without outputs")
                    continue
                with xr.open_dataset(fn) as ds:
                    ds.load()
                    compare_dataset(ds, case, model, padded, dates[i], whole)
                    if whole and case["layout"] == "roi_pixel":
                        compare_dataset(util.convert_roi_pixel_dataset_to_grid(ds), dict(case, layout="converted"), model, mask_outside(padded, roi), dates[i], whole)
            else:
                compare_rasters(res, case, model, padded, dates[i])
    n = sum(len(wanted(case, f)) for f in case["fields"])
    rec.nt(n > 0 and case["nsteps"] > 1 and any("agg" in f for f in case["fields"]))


def mask_outside(truth, roi):
    out = []
    for t in truth:
        d = {}
        for k, v in t.items():
            v = v.astype(float)
            v[..., ~roi] = np.nan
            d[k] = v
        out.append(d)
    return out


def compare_rasters(res, case, model, truth, done):
    ext = {"ascii": "asc", "geotiff": "tif"}[case["format"]]
    exp = {}
    for f in case["fields"]:
        for start, d, v in expected(case, f, truth, model.grid.roi):
            if d > done:
                continue
            stamp = f"{d:%Y-%m-%dT%H%M}"
            if "agg" in f:
                stamp = f"{start:%Y-%m-%dT%H%M}_{stamp}"
            if v.ndim == 2:
                exp[f"{f['name']}_{stamp}.{ext}"] = v
            else:
                for k in range(len(v)):
                    exp[f"{f['name']}_{k}_{stamp}.{ext}"] = v[k]
    got = {x for x in os.listdir(res) if x.endswith(ext)}
    check(got == set(exp), f"output files {sorted(got ^ set(exp))[:4]} differ")
    for fn, v in exp.items():
        with rasterio.open(os.path.join(res, fn)) as ds:
            if ext == "asc":
                # (GDAL misinterprets ASCII grids consisting only of missing values)
                lines = open(os.path.join(res, fn)).read().split("\n")
                nodata = [x.split()[1] for x in lines if x.lower().startswith("nodata")]
                a = np.array([[float(x) for x in line.split()] for line in lines if line and not line[0].isalpha() or line.startswith("nan")])
                for x in nodata:
                    a[a == float(x)] = np.nan
            else:
                a = ds.read(1, masked=True).astype(float).filled(np.nan)
            check(ds.transform.almost_equals(model.grid.transform), "georeference")
        same(a, v, fn)


sub("C08", "values", value_cases, quick=350, thorough=3000, budget=45, rule="more than one time step and an aggregated field")(values)


# ---------------------------------------------------------------- rejected set-ups
@st.composite
def bad_cases(draw):
    case = draw(periods(["3h", "D"], lambda step: 3))
    kind = draw(st.sampled_from(["duplicate", "duplicate-default", "layout", "variable", "ok"]))
    fmt = draw(st.sampled_from(["netcdf", "memory", "ascii", "geotiff"]))
    f = dict(duplicate=[dict(var="meteo.temp", name="a"), dict(var="snow.swe", name="a")], layout=[dict(var="snow.swe")],
             variable=[dict(var=draw(st.sampled_from(["snow.foo", "foo.bar", "temp"])))], ok=[dict(var="meteo.temp"), dict(var="snow.temp", name="snow_temp")])
    f["duplicate-default"] = [dict(var="meteo.temp"), dict(var="snow.temp")]
    if kind == "layout":
        fmt = draw(st.sampled_from(["ascii", "geotiff"]))
    return dict(case, kind=kind, format=fmt, fields=f[kind], layout="roi_pixel" if kind == "layout" else "grid")


def rejected(case, rec):
    tc = dict(case, res=50, dem=[[1500.0]], columns=WEATHER)
    over = dict(output_data=dict(grids=dict(format=case["format"], layout=case["layout"], variables=case["fields"])), **gen.TI_SNOW)
    rec.label(case["kind"])
    rec.nt(case["kind"] != "ok")
    try:
        with synth.column_model(tc, over) as model:
            model.run()
    except errors.ConfigurationError:
        check(case["kind"] != "ok", "valid outputs rejected")
    except (KeyError, AttributeError, ValueError):
        check(case["kind"] == "variable", "unexpected error")
    else:
        check(case["kind"] == "ok", f"invalid outputs ({case['kind']}) accepted")


sub("C08", "rejected", bad_cases, quick=16, thorough=100, budget=10, rule="outputs which must be rejected")(rejected)
