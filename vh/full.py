"""Cases which may use every submodel, for the properties of whole simulations."""
import contextlib

import numpy as np

from . import bootstrap

bootstrap.setup()

from hypothesis import strategies as st  # noqa: E402

from . import gen, lc, synth  # noqa: E402
from .checks.c01 import snow_config  # noqa: E402

OBS = dict(temp=(248, 293), precip=(0, 9), rel_hum=(15, 100), wind_speed=(0, 15), sw_in=(0, 900), wind_dir=(0, 360), cloud_fraction=(0, 100))


@st.composite
def observations(draw, nsteps, variables, missing):
    """Plausible station records (on a dyadic lattice); ``missing``: 1 of that many values, 0 = none."""
    data = {}
    for v in variables:
        lo, hi = OBS[v]
        base = draw(st.integers(0, 64))
        vals = []
        for _ in range(nsteps):
            if missing and draw(st.integers(0, missing - 1)) == 0:
                vals.append(None)
            elif v == "precip" and draw(st.booleans()):
                vals.append(0.0)
            else:
                k = min(64, max(0, base + draw(st.integers(-8, 8))))
                vals.append(lo + (hi - lo) * k / 64)
        data[v] = vals
    return data


@st.composite
def full_case(draw, nsteps=(3, 10), forcing=None, missing=0, max_rows=4, max_cols=4, snow=None, glaciers=None, legacy=True):
    rows, cols = draw(st.integers(1, max_rows)), draw(st.integers(1, max_cols))
    forcing = forcing or draw(st.sampled_from(["columns", "stations"]))
    timestep = draw(st.sampled_from(["h", "3h", "6h", "24h"] if forcing == "columns" else ["h", "3h", "24h"]))
    snow = snow or draw(st.sampled_from(["multilayer", "cryolayers"]))
    cfg = draw(snow_config(snow))
    if not legacy and snow == "cryolayers":
        cfg["snow"]["cryolayers"]["surface_temperature_iteration_method"] = "secant"
    case = dict(
        start=draw(gen.start_dates(hours=(0, 0, 6, 12))), timestep=timestep, nsteps=draw(st.integers(*nsteps)), res=draw(st.sampled_from([50, 100])),
        dem=draw(gen.dem(rows, cols)), grids={}, config=cfg,
    )
    roi = draw(gen.roi_mask(rows, cols))
    if roi is not None:
        case["grids"]["roi"] = roi
    canopy, et = draw(st.sampled_from([(False, False), (False, False), (True, False), (False, True), (True, True)]))
    if canopy or et:
        case["grids"]["lc"] = [[float(draw(st.sampled_from([4, 5, 5, 6, 8, 10, 1, 2, 0]))) for _ in range(cols)] for _ in range(rows)]
        cfg["canopy"] = dict(enabled=canopy)
        cfg["evapotranspiration"] = dict(enabled=et)
    if et:
        case["grids"]["soil"] = [[float(draw(st.integers(1, 9))) for _ in range(cols)] for _ in range(rows)]
    glaciers = draw(st.integers(0, 3)) == 0 if glaciers is None else glaciers
    if glaciers and snow == "cryolayers":
        cfg["glaciers"] = dict(enabled=True, delta_h=dict(mass_balance_year_start_month=draw(st.integers(1, 12))))
        case["grids"]["glaciers"] = [[float(draw(st.integers(0, 2))) for _ in range(cols)] for _ in range(rows)]
        case["ice"] = [[float(draw(st.sampled_from([0, 5, 12, 40]))) for _ in range(cols)] for _ in range(rows)]
    if forcing == "columns":
        case["columns"] = draw(st.lists(gen.winter_column(nmax=5), min_size=1, max_size=4))
        if missing:
            for c in case["columns"]:
                for s in c:
                    for k in ("t", "rh", "u", "p"):
                        if draw(st.integers(0, missing - 1)) == 0:
                            s[k] = None
    else:
        variables = ["temp", "precip", "rel_hum", "wind_speed", "sw_in"]
        m = cfg["meteo"]
        m["interpolation"] = dict(
            temperature=dict(trend_method=draw(st.sampled_from(["regression", "fixed"]))),
            precipitation=dict(trend_method=draw(st.sampled_from(["regression", "adjustment_factor", "fractional"]))),
            humidity=dict(trend_method=draw(st.sampled_from(["regression", "fixed"]))),
            wind=dict(method="idw"),
        )
        if min(rows, cols) > 2 and draw(st.booleans()):
            m["interpolation"]["wind"]["method"] = "liston"
            variables.append("wind_dir")
        cloud = draw(st.sampled_from(["clear_sky_fraction", "humidity", "prescribed"]))
        m["interpolation"]["cloudiness"] = dict(method=cloud, clear_sky_fraction_night_method=draw(st.sampled_from(["humidity", "constant"])), allow_fallback=True)
        if cloud == "prescribed":
            variables.append("cloud_fraction")
        if draw(st.booleans()):
            m["precipitation_correction"] = [draw(st.sampled_from([dict(method="constant_scf", scf=0.5), dict(method="wmo", gauge="hellmann"), dict(method="kochendorfer", gauge="us_un")]))]
        res = case["res"]
        case["stations"] = [
            dict(
                id=f"s{i}", x=draw(st.integers(-2, 2 * cols + 1)) * res / 2 + 3.0 + 5 * i, y=draw(st.integers(-2, 2 * rows + 1)) * res / 2 + 7.0,
                alt=float(draw(st.integers(1200, 3200))), data=draw(observations(case["nsteps"], variables, missing)),
            )
            for i in range(draw(st.integers(1, 4)))
        ]
        deep = cfg.setdefault("input_data", {}).setdefault("meteo", {})
        deep["bounds"] = "global"
    return case


@contextlib.contextmanager
def open_model(case, overrides=None, meteo=None, callback=None):
    """The initialized model of a case."""
    case = dict(case, config=lc.with_int_classes(case["config"]))
    with synth.workdir() as d:
        synth.write_grids(d, case["res"], {"dem": case["dem"], **(case.get("grids") or {})}, pad=case.get("pad", (0, 0)))
        synth.write_extended(d, case)
        stations = "stations" in case
        cfg = synth.base_config(d, case, "memory" if stations else "callback", overrides)
        model = synth.make_model(cfg)
        if stations:
            model.initialize(meteo=synth.stations_dataset(case) if meteo is None else meteo)
        else:
            model.initialize(meteo_callback=callback or synth.column_callback(case))
        add_ice(case, model)
        yield model


def add_ice(case, model):
    """Initial glacier ice (thickness in m)."""
    if "ice" in case:
        roi = model.grid.roi
        h = np.array(case["ice"])[roi]
        s = model.state.snow
        s.thickness[3, roi] = h
        s.density[3, roi] = np.where(h > 0, 900.0, np.nan)
        s.ice_content[3, roi] = h * 900.0
        s.layer_albedo[3, roi] = np.where(h > 0, 0.4, np.nan)


def labels(case):
    c = case["config"]
    out = [c["snow"]["model"], c["snow"].get("melt", {}).get("method", "energy_balance"), "stations" if "stations" in case else "columns"]
    for k in ("canopy", "evapotranspiration", "glaciers"):
        if c.get(k, {}).get("enabled"):
            out.append(k)
    return out


def identical(a, b, where=None):
    """Names of the arrays of two state snapshots which are not bit-identical (where: only there)."""
    bad = []
    for k in a:
        x, y = a[k], b[k]
        if where is not None:
            x, y = x[..., where], y[..., where]
        if x.dtype != y.dtype or x.shape != y.shape or not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
            bad.append(k)
    return bad
