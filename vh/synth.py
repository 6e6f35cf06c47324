"""Synthetic model domains, forcing data and runs (everything a model run needs, from plain data)."""
import contextlib
import copy
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
import pyproj

from . import bootstrap

bootstrap.setup()

import openamundsen as oa  # noqa: E402
from openamundsen import constants, forcing  # noqa: E402

T0 = constants.T0
CRS = "epsg:32632"
X0, Y0 = 640000.0, 5190000.0
DOMAIN = "syn"


@contextlib.contextmanager
def workdir():
    d = tempfile.mkdtemp(prefix="vh-run-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_asc(path, arr, res, xll=X0, yll=Y0, nodata=-9999):
    arr = np.asarray(arr, dtype=float)
    with open(path, "w") as f:
        f.write(
            f"ncols {arr.shape[1]}\nnrows {arr.shape[0]}\nxllcorner {xll}\nyllcorner {yll}\n"
            f"cellsize {res}\nNODATA_value {nodata}\n"
        )
        for row in arr:
            f.write(" ".join(str(nodata) if np.isnan(v) else repr(float(v)) for v in row) + "\n")


def write_grids(d, res, grids, domain=DOMAIN, pad=(0, 0)):
    """grids: mapping kind -> 2d array (None entries are skipped); pad: extra rows/columns at the lower left."""
    gdir = os.path.join(d, "grids")
    os.makedirs(gdir, exist_ok=True)
    for kind, arr in grids.items():
        if arr is not None:
            write_asc(os.path.join(gdir, f"{kind}_{domain}_{res}.asc"), arr, res, X0 - pad[1] * res, Y0 - pad[0] * res)
    return gdir


def write_extended(d, case, domain=DOMAIN):
    """Extended elevation model case["ext"] = {pad: [top, bottom, left, right], dem} (full extent)."""
    ext = case.get("ext")
    if ext:
        _, bottom, left, _ = ext["pad"]
        write_asc(
            os.path.join(d, "grids", f"extended-dem_{domain}_{case['res']}.asc"), ext["dem"], case["res"],
            xll=X0 - left * case["res"], yll=Y0 - bottom * case["res"],
        )
    if "spare" in case:  # grids which are not used by the configuration
        write_grids(d, case["res"], case["spare"])
        write_grids(d, case["res"] * 2, {"dem": [[1.0]], "roi": [[0.0]]})
        write_grids(d, case["res"], {"dem": [[1.0]], "roi": [[0.0]]}, domain="other")
        open(os.path.join(d, "grids", "readme.txt"), "w").close()


def deep_update(d, u):
    for k, v in (u or {}).items():
        if isinstance(v, dict) and isinstance(d.get(k), dict):
            deep_update(d[k], v)
        else:
            d[k] = copy.deepcopy(v)
    return d


def dates_of(case):
    return pd.date_range(case["start"], periods=case["nsteps"], freq=case["timestep"])


def base_config(d, case, meteo_format="memory", overrides=None):
    dates = dates_of(case)
    cfg = dict(
        domain=DOMAIN,
        start_date=str(dates[0]),
        end_date=dates[-1].to_pydatetime(),
        resolution=int(case["res"]),
        timestep=case["timestep"],
        crs=CRS,
        timezone=int(case.get("timezone", 1)),
        log_level="CRITICAL",
        enable_default_logging=False,
        numba_threads=1,
        results_dir=os.path.join(d, "results"),
        input_data=dict(
            grids=dict(dir=os.path.join(d, "grids")),
            meteo=dict(format=meteo_format),
        ),
        output_data=dict(
            timeseries=dict(
                format="memory", add_default_points=False, add_default_variables=False
            ),
            grids=dict(format="memory"),
        ),
    )
    deep_update(cfg, case.get("config"))
    deep_update(cfg, overrides)
    return cfg


def lonlat(x, y, crs=CRS):
    t = pyproj.Transformer.from_crs(crs, "epsg:4326", always_xy=True)
    return t.transform(x, y)


def cell_center(case, row, col):
    nrows = len(case["dem"])
    res = case["res"]
    return X0 + (col + 0.5) * res, Y0 + (nrows - row - 0.5) * res


def station_dataset(sid, x, y, alt, dates, data):
    lon, lat = lonlat(x, y)
    df = pd.DataFrame({k: np.asarray(v, float) for k, v in data.items()}, index=dates)
    return forcing.make_point_dataset(
        df, point_id=sid, name=sid, lon=lon, lat=lat, alt=float(alt)
    )


def combine(datasets):
    return forcing.combine_point_datasets(datasets)


def make_model(cfg):
    return oa.OpenAmundsen(oa.Configuration.from_dict(copy.deepcopy(cfg)))


def column_callback(case):
    """
    Meteo callback assigning to every pixel the weather of one generated "column": each column is
    a list of per-step dicts (t: K, p: kg m-2, rh: %, u: m s-1, cf: cloud factor, cl: fraction).
    Missing precipitation is zero, as in the interpolation of station data (unless the case says
    ``undefined_precip``).
    """
    cols = case["columns"]
    nsteps = case["nsteps"]
    arr = {
        k: np.array(
            [[np.nan if v is None else v for v in expand(c, nsteps, k)] for c in cols], dtype=float
        )
        for k in ("t", "p", "rh", "u", "cf", "cl")
    }

    def callback(model):
        m = model.state.meteo
        i = model.date_idx
        roi = model.grid.roi
        idx = np.arange(roi.size).reshape(roi.shape) % len(cols)
        m.temp[roi] = arr["t"][idx[roi], i]
        p = arr["p"][idx[roi], i]
        m.precip[roi] = p if case.get("undefined_precip") else np.nan_to_num(p)
        m.rel_hum[roi] = arr["rh"][idx[roi], i]
        m.wind_speed[roi] = arr["u"][idx[roi], i]
        m.cloud_factor[roi] = arr["cf"][idx[roi], i]
        m.cloud_fraction[roi] = arr["cl"][idx[roi], i]

    return callback


def expand(segments, nsteps, key):
    """Expand a list of weather segments {n, ...} cyclically to nsteps values of ``key``."""
    out = []
    while len(out) < nsteps:
        for s in segments:
            out.extend([s[key]] * s["n"])
    return out[:nsteps]


@contextlib.contextmanager
def column_model(case, overrides=None):
    """An initialized model with callback forcing for ``case``."""
    with workdir() as d:
        write_grids(d, case["res"], {"dem": case["dem"], **(case.get("grids") or {})})
        write_extended(d, case)
        cfg = base_config(d, case, "callback", overrides)
        model = make_model(cfg)
        model.initialize(meteo_callback=column_callback(case))
        yield model


def snap(model, names):
    """Copies of state variables given as 'category.name'."""
    return {n: get(model, n).copy() for n in names}


def get(model, name):
    v = model.state
    for p in name.split("."):
        v = v[p]
    return v


def all_vars(model):
    """All state arrays, as {category.name: copy}."""
    out = {}
    for cat in model.state.categories:
        for name, v in model.state[cat].items():
            if isinstance(v, np.ndarray):
                out[f"{cat}.{name}"] = v.copy()
    return out


def none_nan(values):
    return np.array([np.nan if v is None else v for v in values], dtype=float)


def stations_dataset(case, stations=None, dates=None):
    """
    Combined point dataset of ``case["stations"]``: each a dict with id, x, y (metres relative to the
    lower left corner of the grid), alt and data (variable -> list of values, None = missing).
    """
    dates = dates_of(case) if dates is None else dates
    return combine(
        [
            station_dataset(
                s["id"], X0 + s["x"], Y0 + s["y"], s["alt"], dates,
                {k: none_nan(v) for k, v in s["data"].items()},
            )
            for s in (case["stations"] if stations is None else stations)
        ]
    )


@contextlib.contextmanager
def station_model(case, overrides=None, stations=None, meteo=None):
    """An initialized model with in-memory station forcing for ``case``."""
    with workdir() as d:
        write_grids(d, case["res"], {"dem": case["dem"], **(case.get("grids") or {})})
        write_extended(d, case)
        cfg = base_config(d, case, "memory", overrides)
        model = make_model(cfg)
        model.initialize(meteo=stations_dataset(case, stations) if meteo is None else meteo)
        yield model
