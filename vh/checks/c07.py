"""C07: station selection rules and the mapping of stations to the model grid."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from openamundsen import errors

from .. import meteofiles as mf
from .. import synth
from ..core import check, sub

IDS = ["a", "b", "B", "c c", "007", "7", "12", "zz", "e-1", "x.y"]
# offsets (m) from cell borders: close, but not within the accuracy of coordinate transformations
OFFS = [0.01, 0.5, 12.5, 25.0, 49.5, 49.99]


@st.composite
def coordinate(draw, ncells, far=True):
    cell = draw(st.integers(-2 if far else 0, ncells + 1 if far else ncells - 1))
    return cell * 50 + draw(st.sampled_from(OFFS))


@st.composite
def cases(draw):
    rows, cols = draw(st.integers(1, 4)), draw(st.integers(1, 5))
    ids = draw(st.lists(st.sampled_from(IDS), unique=True, min_size=1, max_size=6))
    stations = [
        dict(
            id=i, name=f"Name {i}", x=draw(coordinate(cols)), y=draw(coordinate(rows)), alt=float(draw(st.integers(0, 3000))),
            freq="PT1H", k0=0, n=3,
            data=dict(
                temp=dict(base=250.0 + k, step=1, a=0, b=1, m=5), precip=dict(base=float(k), step=1, a=0, b=1, m=3),
            ),
        )
        for k, i in enumerate(ids)
    ]
    # (several stations at the same place are allowed)
    if len(stations) > 1 and draw(st.integers(0, 3)) == 0:
        stations[1].update(x=stations[0]["x"], y=stations[0]["y"])
    bounds = draw(st.sampled_from(["grid", "global", "list", "default"]))
    if bounds == "list":
        xs = sorted([draw(st.integers(-3, cols + 3)) * 50, draw(st.integers(-3, cols + 3)) * 50])
        ys = sorted([draw(st.integers(-3, rows + 3)) * 50, draw(st.integers(-3, rows + 3)) * 50])
        bounds = [xs[0], ys[0], xs[1], ys[1]]
    cell = st.sampled_from([1.0, 1.0, 0.0, None])
    roi = None
    if draw(st.booleans()):
        roi = [[draw(cell) for _ in range(cols)] for _ in range(rows)]
    holes = [[draw(st.integers(0, rows - 1)), draw(st.integers(0, cols - 1))] for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
    dem = [[1000.0 + 10 * r + c for c in range(cols)] for r in range(rows)]
    for r, c in holes:
        dem[r][c] = None
    return dict(
        start="2020-01-01 00:00", timestep="h", nsteps=3, res=50, dem=dem, roi=roi, stations=stations, bounds=bounds,
        exclude=draw(st.lists(st.sampled_from(IDS), max_size=3)),
        include=draw(st.lists(st.sampled_from(ids), max_size=3)) + draw(st.sampled_from([[], [], [], [], ["nope"]])),
        format=draw(st.sampled_from(["csv", "csv", "netcdf", "memory"])), wrong_dates=draw(st.sampled_from([None, None, "shifted", "short", "long"])),
        crs=draw(st.sampled_from([None, synth.CRS, "epsg:4326", "epsg:31254", "epsg:3035"])), extend=draw(st.booleans()),
    )


def selected(case):
    """IDs of the stations which have to be used."""
    nrows, ncols = len(case["dem"]), len(case["dem"][0])
    b = case["bounds"]
    if b in ("grid", "default"):
        b = [0, 0, ncols * 50, nrows * 50]
    out = []
    for s in case["stations"]:
        inside = b == "global" or (b[0] <= s["x"] < b[2] and b[1] <= s["y"] < b[3])
        if (inside and s["id"] not in case["exclude"]) or s["id"] in case["include"]:
            out.append(s["id"])
    return out


def stations(case, rec):
    nrows, ncols = len(case["dem"]), len(case["dem"][0])
    dem = np.array([[np.nan if v is None else v for v in r] for r in case["dem"]], float)
    memory = case["format"] == "memory"
    with synth.workdir() as d:
        grids = {"dem": dem}
        roi = np.isfinite(dem)
        if case["roi"] is not None:
            r = np.array([[np.nan if v is None else v for v in row] for row in case["roi"]], float)
            grids["roi"] = r
            roi = (r == 1) & np.isfinite(dem)
        synth.write_grids(d, 50, grids)
        frames = [mf.frame(s, case["start"]) for s in case["stations"]]
        mcfg = dict(dir=os.path.join(d, "meteo"))
        if not memory:
            if case["bounds"] != "default":
                b = case["bounds"]
                mcfg["bounds"] = b if isinstance(b, str) else [b[0] + synth.X0, b[1] + synth.Y0, b[2] + synth.X0, b[3] + synth.Y0]
            mcfg.update(exclude=case["exclude"], include=case["include"])
            if case["format"] == "csv":
                mf.write_csv(mcfg["dir"], case["stations"], frames, case["crs"])
                if case["crs"] is not None:
                    mcfg["crs"] = case["crs"]
            else:
                mf.write_netcdf(mcfg["dir"], case["stations"], frames)
        cfg = synth.base_config(
            d, case, case["format"], dict(input_data=dict(meteo=mcfg), extend_roi_with_stations=case["extend"])
        )
        model = synth.make_model(cfg)
        meteo = None
        ids = [s["id"] for s in case["stations"]]
        exp = ids if memory else selected(case)
        if memory:
            meteo = synth.combine(
                [
                    synth.station_dataset(s["id"], synth.X0 + s["x"], synth.Y0 + s["y"], s["alt"], f.index, dict(f))
                    for s, f in zip(case["stations"], frames)
                ]
            )
        wrong_dates = memory and case["wrong_dates"]
        if wrong_dates == "shifted":
            meteo = meteo.assign_coords(time=meteo.time + np.timedelta64(1, "h"))
        elif wrong_dates == "short":
            meteo = meteo.isel(time=slice(0, 2))
        elif wrong_dates == "long":
            meteo = meteo.reindex(time=pd.date_range(case["start"], periods=4, freq="h"))
        bad = bool(wrong_dates) or not memory and ("nope" in case["include"] or not exp)
        nothing = not roi.any()
        try:
            model.initialize(meteo=meteo)
        except errors.MeteoDataError as e:
            check(bad, f"unexpected error: {e}")
            rec.label("rejected")
            return
        except Exception:
            if nothing:  # no pixels to simulate
                rec.label("empty")
                return
            raise
        check(not bad, "missing stations or wrong dates were accepted")
        ds = model.meteo
        check(sorted(ds.station.values) == sorted(exp), f"stations {list(ds.station.values)} instead of {exp}")
        out_roi = roi.copy()
        for s, f in zip(case["stations"], frames):
            if s["id"] not in exp:
                continue
            one = ds.sel(station=s["id"])
            check(abs(float(one.x) - synth.X0 - s["x"]) < 5e-3 and abs(float(one.y) - synth.Y0 - s["y"]) < 5e-3,
                  f"{s['id']}: coordinates {float(one.x) - synth.X0} {float(one.y) - synth.Y0} instead of {s['x']} {s['y']}")
            lonlat = synth.lonlat(synth.X0 + s["x"], synth.Y0 + s["y"])
            check(abs(float(one.lon) - lonlat[0]) < 1e-6 and abs(float(one.lat) - lonlat[1]) < 1e-6,
                  f"{s['id']}: longitude/latitude {float(one.lon)}, {float(one.lat)} instead of {lonlat}")
            check(float(one.alt) == s["alt"], f"{s['id']}: altitude")
            check(str(one.station_name.values) == (s["id"] if memory else s["name"]), f"{s['id']}: name {one.station_name.values}")
            for v in ("temp", "precip"):
                check(np.allclose(one[v].values, f[v].values, rtol=1e-12), f"{s['id']}: data of another station")
            col = int(np.floor(s["x"] / 50))
            row = nrows - 1 - int(np.floor(s["y"] / 50))
            check(int(one.row) == row and int(one.col) == col, f"{s['id']}: cell {int(one.row)},{int(one.col)} instead of {row},{col}")
            inside = 0 <= row < nrows and 0 <= col < ncols
            check(bool(one.within_grid_extent) == inside, f"{s['id']}: within grid {bool(one.within_grid_extent)}")
            in_roi = inside and bool(roi[row, col])
            if case["extend"] and inside and np.isfinite(dem[row, col]):
                in_roi = True
            if in_roi:
                out_roi[row, col] = True
            check(bool(one.within_roi) == in_roi, f"{s['id']}: within ROI {bool(one.within_roi)} instead of {in_roi}")
        check(np.array_equal(model.grid.roi, out_roi), f"region of interest {model.grid.roi} instead of {out_roi}")
        if hasattr(model.grid, "roi_idxs_flat"):
            check(np.array_equal(np.flatnonzero(model.grid.roi), model.grid.roi_idxs_flat), "pixel indices")
        else:  # then nothing uses it either
            rec.label("no_pixel_indices")
    rec.label(case["format"], *(["extended"] if (out_roi & ~roi).any() else []))
    rec.nt(0 < len(exp) < len(ids) or (out_roi & ~roi).any())


sub("C07", "stations", cases, quick=500, thorough=10000, budget=45,
    rule="a proper subset of the stations was selected or the region of interest was extended")(stations)
