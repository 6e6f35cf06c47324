"""C06: meteo files are read, filtered, sliced and resampled without distortion."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from openamundsen import errors

from .. import meteofiles as mf
from .. import synth
from ..core import check, sub

LIMITS = dict(  # default filters
    temp=(200, 330), rel_hum=(1, 100), precip=(0, None), wind_speed=(0, 50), sw_in=(0, 1500),
)
BASE = dict(
    temp=(250.0, 0.25), precip=(0.0, 0.5), rel_hum=(20.0, 1.0), sw_in=(0.0, 8.0), wind_speed=(0.5, 0.25),
    wind_speed_gust=(2.0, 0.5), wind_dir=(0.0, 5.0), cloud_fraction=(2.0, 1.0),
)
ODD = dict(
    temp=[150.0, 199.75, 200.0, 330.0, 330.25], precip=[-1.0, -0.25], rel_hum=[0.0, 0.5, 1.0, 100.0, 101.0],
    sw_in=[-1.0, 1500.0, 1501.0], wind_speed=[-1.0, 50.0, 50.5, 0.0], wind_speed_gust=[60.0], wind_dir=[360.0],
    cloud_fraction=[100.0, 0.0],
)
DIVISORS = {
    "h": ["10min", "30min", "h"], "1h": ["20min", "h"], "60min": ["15min", "h"], "2h": ["30min", "h", "2h"],
    "3h": ["30min", "h", "3h"], "6h": ["h", "2h", "3h", "6h"], "12h": ["h", "6h", "12h"],
    "24h": ["h", "3h", "6h", "D"], "D": ["h", "12h", "D"], "1D": ["3h", "D"], "30min": ["10min", "30min"],
}


def td(freq):
    return pd.Timedelta({"h": "1h", "D": "24h", "1D": "24h"}.get(freq, freq))


@st.composite
def record(draw, n, var):
    base, step = BASE[var]
    return dict(
        base=base, step=step, a=draw(st.integers(0, 7)), b=draw(st.integers(0, 30)), m=draw(st.sampled_from([1, 7, 37, 61])),
        missing=[
            [i, i + draw(st.sampled_from([1, 1, 2, 30]))]
            for i in draw(st.lists(st.integers(0, max(n - 1, 0)), max_size=3))
        ],
        odd=[
            [draw(st.integers(0, max(n - 1, 0))), draw(st.sampled_from(ODD[var]))]
            for _ in range(draw(st.integers(0, 3)))
        ],
    )


@st.composite
def cases(draw, full=False):
    timestep = draw(st.sampled_from(list(DIVISORS)))
    nsteps = draw(st.integers(1, 8))
    hour = 0
    if td(timestep) <= pd.Timedelta("6h"):
        hour = draw(st.sampled_from([0, 6, 18]))
    elif td(timestep) == pd.Timedelta("24h"):
        hour = draw(st.sampled_from([0, 0, 0, 6]))
    day = draw(st.sampled_from(["2020-02-28", "2019-12-31", "2020-07-01", "2021-03-28"]))
    stations = []
    for i in range(draw(st.integers(1, 3))):
        freq = draw(st.sampled_from(DIVISORS[timestep]))
        per = int(td(timestep) / td(freq))
        span = nsteps * per
        kind = "all" if full and i == 0 else draw(st.sampled_from(["all", "all", "exact", "any"]))
        if kind == "all":
            k0 = -draw(st.integers(0, 3 * per + 5))
            k1 = span + draw(st.integers(0, 3 * per))
        elif kind == "exact":
            k0, k1 = 0, span - per + 1
        else:
            k0 = draw(st.integers(-2 * per - 3, span + 2))
            k1 = draw(st.integers(k0 + 1, span + 4))
        n = max(k1 - k0, 1 if per == 1 else 3)
        names = ["temp", "precip"] + draw(
            st.lists(st.sampled_from(list(BASE)[2:]), unique=True, max_size=6)
        )
        if "wind_dir" in names and "wind_speed" not in names:
            names.append("wind_speed")
        stations.append(
            dict(
                id=draw(st.sampled_from(["a", "Z", "007", "12", "x_1"])) + str(i), name=f"Station {i}",
                x=10.0 + 13 * i, y=20.0, alt=float(draw(st.integers(0, 4000))), freq="24h" if freq == "D" else td(freq).isoformat(),
                k0=k0, n=n, data={v: draw(record(n, v)) for v in names},
            )
        )
    filters = None
    if draw(st.integers(0, 2)) == 0:
        filters = [
            dict(var="temp", filter="range", min=draw(st.sampled_from([251, 253, 255]))),
            dict(var=draw(st.sampled_from(["wind_speed", "rel_hum", "precip"])), filter="range", max=draw(st.sampled_from([3, 25]))),
        ][: draw(st.integers(0, 2))]
    return dict(
        start=f"{day} {hour:02d}:00", timestep=timestep, nsteps=nsteps, res=100, dem=[[1000.0]], stations=stations,
        aggregate=draw(st.booleans()), format=draw(st.sampled_from(["csv", "netcdf"])),
        rates=draw(st.booleans()), units=draw(st.booleans()), native=draw(st.booleans()),
        checks=draw(st.booleans()), filters=filters,
    )


def limits(case, df):
    """Apply the filters."""
    out = df.copy()
    rules = (
        [(v, *r) for v, r in LIMITS.items()]
        if case["filters"] is None
        else [(f["var"], f.get("min"), f.get("max")) for f in case["filters"]]
    )
    for var, lo, hi in rules:
        if var in out:
            bad = np.zeros(len(out), bool)
            if lo is not None:
                bad |= out[var].values < lo
            if hi is not None:
                bad |= out[var].values > hi
            out.loc[bad, var] = np.nan
    return out


def vector_mean(speed, direction):
    ok = np.isfinite(speed) & np.isfinite(direction)
    if not ok.any():
        return None
    r = np.deg2rad(direction[ok])
    u, v = (speed[ok] * np.sin(r)).mean(), (speed[ok] * np.cos(r)).mean()
    if np.hypot(u, v) < 1e-6:
        return "calm"
    return np.rad2deg(np.arctan2(u, v)) % 360


def expected(case, df, freq):
    """Dict time -> dict var -> value of the time steps available at one station."""
    step, rec = td(case["timestep"]), pd.Timedelta(freq)
    day = step == pd.Timedelta("24h")
    aggregate = case["aggregate"] or day
    out = {}
    t = df.index.values
    for date in synth.dates_of(case):
        if date < df.index[0] or date > df.index[-1]:
            continue
        at = t == np.datetime64(date)
        if step == rec:
            sel, aggr = at, False
        else:
            lo, hi = (date, date + step) if day else (date - step, date)
            sel, aggr = (t > np.datetime64(lo)) & (t <= np.datetime64(hi)), aggregate
        if not sel.any():
            continue
        row = {}
        for var in df.columns:
            v = df[var].values
            x = v[sel]
            ok = np.isfinite(x)
            if step != rec and var == "precip":
                row[var] = x.sum() if ok.all() else np.nan
            elif step != rec and var == "wind_speed_gust":
                row[var] = x[ok].max() if ok.any() else np.nan
            elif aggr and var == "wind_dir":
                row[var] = vector_mean(df["wind_speed"].values[sel], x)
            elif aggr:
                row[var] = x[ok].mean() if ok.any() else np.nan
            else:
                row[var] = v[at][0]
        out[date] = row
    return out


def make(case, d, overrides=None):
    synth.write_grids(d, case["res"], {"dem": case["dem"]})
    frames = [mf.frame(s, case["start"]) for s in case["stations"]]
    if case["format"] == "csv":
        mf.write_csv(os.path.join(d, "meteo"), case["stations"], frames)
    else:
        mf.write_netcdf(
            os.path.join(d, "meteo"), case["stations"], frames, case["rates"], case["units"], case["native"]
        )
    cfg = dict(dir=os.path.join(d, "meteo"), aggregate_when_downsampling=case["aggregate"], enable_missing_data_checks=case["checks"])
    if case["filters"] is not None:
        cfg["filters"] = case["filters"]
    return frames, synth.make_model(synth.base_config(d, case, case["format"], dict(input_data=dict(meteo=cfg))))


def short_rate(case):
    return case["format"] == "netcdf" and case["rates"] and any(s["n"] < 3 for s in case["stations"])


def reading(case, rec):
    if short_rate(case):
        case = dict(case, rates=False)  # the duration of a rate cannot be inferred
    dates = synth.dates_of(case)
    with synth.workdir() as d:
        frames, model = make(case, d)
        exp = {
            s["id"]: expected(case, limits(case, f), s["freq"]) for s, f in zip(case["stations"], frames)
        }
        avail = sorted(set().union(*[set(e) for e in exp.values()]))
        fails = case["checks"] and (not avail or avail[0] > dates[0] or avail[-1] < dates[-1])
        try:
            model.initialize()
        except errors.MeteoDataError as e:
            check(fails, f"unexpected error: {e}")
            rec.label("rejected")
            return
        check(not fails, f"insufficient data were accepted: available {avail[:1]}..{avail[-1:]}")
        ds = model.meteo
        check(ds.indexes["time"].equals(dates), f"time steps {list(ds.indexes['time'])}")
        used = [s for s in case["stations"] if exp[s["id"]]]
        check(sorted(map(str, ds.station.values)) == sorted(s["id"] for s in used), f"stations {ds.station.values}")
        for s in used:
            one = ds.sel(station=s["id"])
            check(str(one.station_name.values) == s["name"], f"station name {one.station_name.values}")
            check(float(one.alt) == s["alt"], f"altitude {float(one.alt)}")
            check(abs(float(one.x) - synth.X0 - s["x"]) < 1e-3 and abs(float(one.y) - synth.Y0 - s["y"]) < 1e-3, "coordinates")
            for var in s["data"]:
                scale = 1.0
                got = one[var].values
                for i, date in enumerate(dates):
                    e = exp[s["id"]].get(date, {}).get(var, np.nan)
                    g = got[i]
                    if e is None:
                        e = np.nan
                    if isinstance(e, str):
                        continue
                    if var == "wind_dir":
                        ok = (np.isnan(e) and np.isnan(g)) or (abs((g - e + 180) % 360 - 180) < 1e-4 and 0 <= g <= 360)
                    else:
                        ok = (np.isnan(e) and np.isnan(g)) or abs(g - e) <= 1e-9 * scale * max(1, abs(e))
                    check(ok, f"{s['id']} {var} at {date}: {g} instead of {e}")
            for var in ds.data_vars:
                if var in BASE and var not in s["data"]:
                    check(np.all(np.isnan(one[var].values)), f"{s['id']}: {var} appeared from nowhere")
    resampled = any(pd.Timedelta(s["freq"]) != td(case["timestep"]) for s in used)
    rec.label("resampled" if resampled else "same-freq", case["format"])
    rec.nt(resampled and case["nsteps"] > 1)


sub("C06", "reading", cases, quick=400, thorough=9000, budget=45,
    rule="records were resampled to at least 2 longer time steps")(reading)


# ---------------------------------------------------------------- the same data in different formats
def same(a, b, what):
    check(set(a.data_vars) == set(b.data_vars), f"{what}: variables {set(a.data_vars) ^ set(b.data_vars)}")
    for s in a.station.values:
        for v in a.data_vars:
            x, y = a[v].sel(station=s).values, b[v].sel(station=s).values
            if x.dtype.kind == "f":
                check(np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True), f"{what}: {v} differs: {x} {y}")
            else:
                check(np.all(x == y), f"{what}: {v} differs: {x} {y}")


def formats(case, rec):
    """CSV, NetCDF (sums or rates, with or without units) and in-memory data give the same forcing."""
    case = dict(case, checks=False)
    out = {}
    for fmt, rates, units, native in (
        ("csv", 0, 0, 0), ("netcdf", 0, 1, 0), ("netcdf", 1, 1, 0), ("netcdf", 1, 0, 1), ("netcdf", 0, 0, 1),
    ):
        c = dict(case, format=fmt, rates=bool(rates), units=bool(units), native=bool(native))
        if short_rate(c):
            continue
        with synth.workdir() as d:
            _, model = make(c, d)
            model.initialize()
            out[f"{fmt} {rates} {units} {native}"] = model.meteo
    first = out["csv 0 0 0"]
    for k, ds in out.items():
        same(first, ds, k)
    if first.sizes["station"]:
        mem = synth.combine(
            [
                synth.forcing.make_point_dataset(
                    pd.DataFrame({v: first[v].sel(station=s["id"]).values for v in s["data"]}, index=synth.dates_of(case)),
                    point_id=s["id"], name=s["name"], lon=synth.lonlat(synth.X0 + s["x"], synth.Y0 + s["y"])[0],
                    lat=synth.lonlat(synth.X0 + s["x"], synth.Y0 + s["y"])[1], alt=s["alt"],
                )
                for s in case["stations"]
                if s["id"] in first.station.values
            ]
        )
        with synth.workdir() as d:
            synth.write_grids(d, case["res"], {"dem": case["dem"]})
            before = mem.copy(deep=True)
            model = synth.make_model(synth.base_config(d, case, "memory"))
            model.initialize(meteo=mem)
            same(first, model.meteo, "memory")
            check(before.identical(mem), "the data passed in memory were changed")
    rec.nt(first.sizes["station"] > 0)


sub("C06", "formats", lambda: cases(full=True), quick=50, thorough=1500, budget=25,
    rule="at least one station has data")(formats)


# ---------------------------------------------------------------- cloud fractions, units and irregular records
@st.composite
def odd_cases(draw):
    case = draw(cases(full=True))
    s = case["stations"][0]
    case["stations"] = [s]
    kind = draw(st.sampled_from(["gap", "frequency", "units", "fraction", "fraction-unitless"]))
    case.update(kind=kind, checks=False)
    if kind == "gap":
        n = max(s["n"], 6)
        s["n"] = n
        case["drop"] = draw(st.integers(2, n - 3))
    elif kind == "frequency":
        case["timestep"], s["freq"] = draw(
            st.sampled_from([("h", "PT3H"), ("3h", "PT2H"), ("h", "PT90M"), ("6h", "PT4H"), ("30min", "PT1H")])
        )
        case["start"] = case["start"][:10] + " 00:00"
        case["nsteps"] = draw(st.integers(5, 9))
        s.update(k0=0, n=40)
    elif kind == "units":
        case["var"] = draw(st.sampled_from(list(s["data"])))
        case["unit"] = draw(st.sampled_from(["degC", "mm/h", "1.5", "km h-1", "kg m-2 h-1"]))
    else:
        s["data"]["cloud_fraction"] = dict(base=0.0, step=1 / 64, a=1, b=draw(st.integers(0, 30)), m=65, missing=[], odd=[[3, 1.0]])
        s["n"] = max(s["n"], 12)
    return case


def irregular(case, rec):
    import xarray as xr

    s = case["stations"][0]
    kind = case["kind"]
    with synth.workdir() as d:
        if kind in ("units", "fraction"):
            case = dict(case, format="netcdf", rates=False, units=True)
        frames, model = make(case, d)
        fn = os.path.join(d, "meteo", s["id"] + (".csv" if case["format"] == "csv" else ".nc"))
        if kind == "gap":
            f = frames[0].drop(frames[0].index[case["drop"]])
            if case["format"] == "csv":
                f.to_csv(fn)
            else:
                mf.write_netcdf(os.path.join(d, "meteo"), [s], [f], False, True)
        elif kind in ("units", "fraction"):
            var = case["var"] if kind == "units" else "cloud_fraction"
            name = var if case["native"] else mf.NC_NAMES.get(var, var)
            with xr.open_dataset(fn) as ds:
                ds = ds.load()
            ds[name].attrs["units"] = case["unit"] if kind == "units" else "1"
            ds.to_netcdf(fn, engine="netcdf4")
        elif kind == "fraction-unitless" and case["format"] == "netcdf":
            mf.write_netcdf(os.path.join(d, "meteo"), [s], frames, False, False, case["native"])
        rec.label(kind)
        rec.nt()
        try:
            model.initialize()
        except errors.MeteoDataError as e:
            check(kind in ("gap", "frequency", "units"), f"{kind}: unexpected error {e}")
            if kind == "units":
                check(case["unit"] in str(e), f"wrong units are not reported: {e}")
            return
        check(kind not in ("gap", "frequency", "units"), f"{kind}: unusable record accepted")
        exp = expected(case, limits(case, frames[0]), s["freq"])
        got = model.meteo.cloud_fraction.sel(station=s["id"]).values
        for i, date in enumerate(synth.dates_of(case)):
            e = 100 * exp.get(date, {}).get("cloud_fraction", np.nan)
            check((np.isnan(e) and np.isnan(got[i])) or abs(e - got[i]) < 1e-9, f"cloud fraction {got[i]} instead of {e}")


sub("C06", "irregular", odd_cases, quick=120, thorough=2500, budget=20,
    rule="every case (record with gaps, unsupported frequency, wrong units, or cloud cover as a fraction)")(irregular)
