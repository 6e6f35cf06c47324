"""Writes generated station records as CSV or NetCDF files."""
import os

import numpy as np
import pandas as pd
import xarray as xr

from . import synth

NC_NAMES = dict(temp="tas", precip="pr", rel_hum="hurs", sw_in="rsds", wind_speed="wss")
UNITS = dict(
    temp="K", precip="kg m-2", rel_hum="%", sw_in="W m-2", wind_speed="m s-1", wind_speed_gust="m s-1",
    wind_dir="degree", cloud_fraction="%",
)


def values(spec, n):
    """Record of length n described by spec = dict(base, step, a, b, m, missing=[[i, j]...], odd=[[i, v]...])."""
    i = np.arange(n)
    v = spec["base"] + spec["step"] * ((spec["a"] * i * i + spec["b"] * i) % spec["m"])
    v = v.astype(float)
    for k, x in spec.get("odd", []):
        if k < n:
            v[k] = x
    for lo, hi in spec.get("missing", []):
        v[lo:hi] = np.nan
    return v


def frame(st, start):
    """Station record as a DataFrame (times relative to ``start``)."""
    td = pd.Timedelta(st["freq"])
    idx = pd.date_range(pd.Timestamp(start) + st["k0"] * td, periods=st["n"], freq=td)
    return pd.DataFrame({k: values(s, st["n"]) for k, s in st["data"].items()}, index=idx)


def xy(st, crs):
    x, y = synth.X0 + st["x"], synth.Y0 + st["y"]
    if crs is None or crs == synth.CRS:
        return x, y
    import pyproj

    return pyproj.Transformer.from_crs(synth.CRS, crs, always_xy=True).transform(x, y)


def write_csv(d, stations, frames, crs=None):
    os.makedirs(d, exist_ok=True)
    rows = []
    for st, df in zip(stations, frames):
        df.to_csv(os.path.join(d, st["id"] + ".csv"), float_format=None)
        x, y = xy(st, crs)
        rows.append(f"{st['id']},{st['name']},{float(x)!r},{float(y)!r},{float(st['alt'])!r}")
    with open(os.path.join(d, "stations.csv"), "w") as f:
        f.write("id,name,x,y,alt\n" + "\n".join(rows) + "\n")


def write_netcdf(d, stations, frames, rates=False, units=True, native=False):
    os.makedirs(d, exist_ok=True)
    for st, df in zip(stations, frames):
        lon, lat = synth.lonlat(synth.X0 + st["x"], synth.Y0 + st["y"])
        data = dict(lon=((), float(lon)), lat=((), float(lat)), alt=((), float(st["alt"])))
        for k in df.columns:
            v = df[k].values
            u = UNITS[k]
            if k == "precip" and rates:
                v = v / pd.Timedelta(st["freq"]).total_seconds()
                u = "kg m-2 s-1"
            attrs = {"units": u} if units or (k == "precip" and rates) else {}
            data[k if native else NC_NAMES.get(k, k)] = (("time",), v, attrs)
        ds = xr.Dataset(data, coords=dict(time=df.index), attrs=dict(station_name=st["name"]))
        ds.to_netcdf(os.path.join(d, st["id"] + ".nc"), engine="netcdf4")
