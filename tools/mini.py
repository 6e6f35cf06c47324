"""Tiny model runs for the demonstrations (scratch files only)."""
import os
import shutil
import sys
import tempfile

import numpy as np
import pandas as pd

import openamundsen as oa
from openamundsen import forcing

T0 = 273.15
X0, Y0 = 640000.0, 5190000.0


def write_asc(path, arr, res, xll=X0, yll=Y0):
    arr = np.asarray(arr, float)
    with open(path, "w") as f:
        f.write(f"ncols {arr.shape[1]}\nnrows {arr.shape[0]}\nxllcorner {xll}\nyllcorner {yll}\n"
                f"cellsize {res}\nNODATA_value -9999\n")
        for row in arr:
            f.write(" ".join("-9999" if np.isnan(v) else repr(float(v)) for v in row) + "\n")


def update(d, u):
    for k, v in u.items():
        if isinstance(v, dict) and isinstance(d.get(k), dict):
            update(d[k], v)
        else:
            d[k] = v
    return d


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def config(d, dem, start, n, timestep="h", res=50, grids=None, conf=None, fmt="callback"):
    os.makedirs(os.path.join(d, "grids"), exist_ok=True)
    for k, a in dict(dem=dem, **(grids or {})).items():
        write_asc(os.path.join(d, "grids", f"{k}_syn_{res}.asc"), a, res)
    dates = pd.date_range(start, periods=n, freq=timestep)
    cfg = dict(
        domain="syn", start_date=str(dates[0]), end_date=dates[-1].to_pydatetime(), resolution=res,
        timestep=timestep, crs="epsg:32632", timezone=1, log_level="CRITICAL", enable_default_logging=False,
        numba_threads=1, results_dir=os.path.join(d, "results"),
        input_data=dict(grids=dict(dir=os.path.join(d, "grids")), meteo=dict(format=fmt)),
        output_data=dict(timeseries=dict(format="memory", add_default_points=False,
                                         add_default_variables=False), grids=dict(format="memory")),
    )
    return update(cfg, conf or {}), dates


def model(d, dem, start, n, weather=None, meteo=None, **kw):
    """weather(i) -> dict of t (K), p, rh, u, cf, cl (scalars or arrays) for step i."""
    cfg, _ = config(d, dem, start, n, fmt="memory" if meteo is not None else "callback", **kw)
    m = oa.OpenAmundsen(oa.Configuration.from_dict(cfg))

    def callback(m):
        w = weather(m.date_idx)
        roi = m.grid.roi
        for k, name in dict(t="temp", p="precip", rh="rel_hum", u="wind_speed", cf="cloud_factor",
                            cl="cloud_fraction").items():
            m.state.meteo[name][roi] = np.broadcast_to(w[k], roi.shape)[roi]

    if meteo is not None:
        m.initialize(meteo=meteo)
    else:
        m.initialize(meteo_callback=callback)
    return m


def station(sid, x, y, alt, dates, **data):
    import pyproj

    lon, lat = pyproj.Transformer.from_crs("epsg:32632", "epsg:4326", always_xy=True).transform(X0 + x, Y0 + y)
    df = pd.DataFrame({k: np.broadcast_to(np.asarray(v, float), len(dates)) for k, v in data.items()}, index=dates)
    return forcing.make_point_dataset(df, point_id=sid, name=sid, lon=lon, lat=lat, alt=float(alt))


def stations(*ds):
    return forcing.combine_point_datasets(list(ds))


def expect(cond, msg):
    if not cond:
        print("FAILED:", msg)
        sys.exit(1)
