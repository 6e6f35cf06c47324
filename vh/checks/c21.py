"""C21: raster files and input grids."""
import os

import numpy as np
import rasterio
from hypothesis import strategies as st
from rasterio.transform import from_origin

from openamundsen import errors, fileio

from .. import gen, synth
from ..core import check, sub

DTYPES = dict(float64=(-4096, 4096, 8), float32=(-4096, 4096, 8), int32=(-5000, 5000, 1), int16=(-300, 300, 1), uint8=(0, 250, 1))


# ---------------------------------------------------------------- round trip
@st.composite
def rasters(draw):
    rows, cols = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    driver = draw(st.sampled_from(["AAIGrid", "GTiff"]))
    dtype = draw(st.sampled_from(sorted(DTYPES) if driver == "GTiff" else ["float64", "float32", "int32", "int16"]))
    lo, hi, den = DTYPES[dtype]
    values = [[draw(st.integers(lo * den, hi * den)) / den for _ in range(cols)] for _ in range(rows)]
    nodata = draw(st.sampled_from([None, -9999, 255] if dtype != "uint8" else [None, 255]))
    return dict(
        values=values, dtype=dtype, driver=driver, nodata=nodata, decimals=draw(st.sampled_from([None, 3, 1])) if dtype.startswith("f") else None,
        missing=[[draw(st.integers(0, 4)) == 0 for _ in range(cols)] for _ in range(rows)] if nodata is not None else None,
        res=draw(st.sampled_from([1, 10, 25, 50, 1000])), x=draw(gen.num(0, 900000, draw(st.integers(0, 3)))), y=draw(gen.num(0, 6e6, draw(st.integers(0, 3)))),
        fill=draw(st.sampled_from([None, "nan", 0, -1])), cast=draw(st.sampled_from([None, "float64", "int64", "bool"])),
    )


def roundtrip(case, rec):
    dtype = np.dtype(case["dtype"])
    data = np.array(case["values"])
    missing = np.zeros(data.shape, bool)
    if case["missing"] is not None:
        missing = np.array(case["missing"])
        data[missing] = case["nodata"]
    missing |= (data == case["nodata"]) if case["nodata"] is not None else False
    rows, cols = data.shape
    t = from_origin(case["x"], case["y"] + rows * case["res"], case["res"], case["res"])
    kw = dict(driver=case["driver"], nodata=case["nodata"])
    if case["decimals"] is not None and case["driver"] == "AAIGrid":
        kw["decimal_precision"] = case["decimals"]
    if case["driver"] == "GTiff":
        kw["crs"] = "epsg:32632"
    with synth.workdir() as d:
        name = os.path.join(d, "a.asc" if case["driver"] == "AAIGrid" else "a.tif")
        arr = data.astype(dtype)
        before = arr.copy()
        fileio.write_raster_file(name, arr, t, **kw)
        check(np.array_equal(arr, before), "writing modifies the data")
        meta = fileio.read_raster_metadata(name, crs="epsg:32632")
        check(meta["rows"] == rows and meta["cols"] == cols and tuple(meta["shape"]) == (rows, cols), f"size {meta}")
        check(meta["resolution"] == case["res"], f"resolution {meta['resolution']}")
        check(np.allclose(tuple(meta["transform"]), tuple(t), rtol=0, atol=1e-6), f"georeference {meta['transform']} instead of {t}")
        check(meta["crs"] == rasterio.crs.CRS.from_string("epsg:32632"), f"CRS {meta['crs']}")
        fill = {"nan": np.nan}.get(case["fill"], case["fill"])
        cast = case["cast"]
        if isinstance(fill, float) and cast != "float64" and not (cast is None and case["dtype"].startswith("f")):
            cast = "float64"
        if fill is None and cast == "bool":
            cast = None
        got = fileio.read_raster_file(name, check_meta=meta, fill_value=fill, dtype=cast)
        check(not isinstance(got, np.ma.MaskedArray) and got.shape == data.shape, "no plain array returned")
        if cast is not None:
            check(got.dtype == np.dtype(cast), f"dtype {got.dtype}")
        tol = 0.5 * 10.0 ** -case["decimals"] + 1e-3 if "decimal_precision" in kw else 0
        ok = ~missing if fill is not None else np.ones(data.shape, bool)
        exp = data.astype(cast) if cast is not None else data
        if cast == "bool" or not tol:
            same = np.array_equal(got[ok], exp[ok]) or (cast == "bool" and tol)
        else:
            same = np.allclose(got[ok].astype(float), data[ok], rtol=0, atol=tol + (1 if cast == "int64" else 0))
        check(same, f"values {got[ok]} instead of {exp[ok]}")
        if fill is not None:
            f = np.full(missing.sum(), fill).astype(got.dtype) if got.dtype.kind != "b" else np.full(missing.sum(), bool(fill))
            check(np.array_equal(got[~ok], f, equal_nan=got.dtype.kind == "f"), f"missing values read as {got[~ok]} instead of {fill}")
    rec.label(case["driver"], case["dtype"], "fill" if fill is not None else "keep")
    rec.nt(missing.any() and not missing.all())


sub("C21", "roundtrip", rasters, quick=400, thorough=8000, budget=15, rule="some values are missing")(roundtrip)


# ---------------------------------------------------------------- input grids of the model
KINDS = dict(roi=(0, 1), lc=(1, 10), soil=(1, 9), glaciers=(0, 3), srf=(1, 16), svf=(1, 8))


def write(path, arr, case, header=None, integers=False):
    """ASCII grid (None = missing) with the header of the case, or changed by ``header``."""
    h = dict(xll=case["x"], yll=case["y"], res=case["res"], nodata=case["nodata"])
    h.update(header or {})
    size = f"dx {h['res']}\ndy {h['dy']}" if "dy" in h else f"cellsize {h['res']}"
    with open(path, "w") as f:
        f.write(f"ncols {len(arr[0])}\nnrows {len(arr)}\nxllcorner {h['xll']}\nyllcorner {h['yll']}\n{size}\nNODATA_value {h['nodata']}\n")
        for row in arr:
            f.write(" ".join(str(h["nodata"]) if v is None else str(int(v)) if integers else repr(float(v)) for v in row) + "\n")


@st.composite
def grids(draw, missing=True):
    rows, cols = draw(st.integers(1, 4)), draw(st.integers(1, 5))
    nodata = draw(st.sampled_from([-9999, -32768, -1]))

    def grid(lo, hi, den=1):
        m = draw(st.integers(0, 3)) if missing else 0
        return [[None if m == 3 and draw(st.integers(0, 2)) == 0 else draw(st.integers(lo, hi)) / den for _ in range(cols)] for _ in range(rows)]

    case = dict(
        start="2020-01-01 00:00", timestep="3h", nsteps=2, res=draw(st.sampled_from([20, 50, 100])), nodata=nodata,
        x=draw(gen.num(600000, 660000, draw(st.sampled_from([0, 0, 2])))), y=draw(gen.num(5150000, 5190000, draw(st.sampled_from([0, 0, 2])))),
        dem=grid(4 * 1000, 4 * 3000, 4), integers=draw(st.booleans()),
    )
    r, c = draw(st.integers(0, rows - 1)), draw(st.integers(0, cols - 1))
    if case["dem"][r][c] is None:
        case["dem"][r][c] = 2000.0
    g = {}
    for k in draw(st.sets(st.sampled_from(sorted(KINDS)))) | {"lc", "soil"}:
        lo, hi = KINDS[k]
        g[k] = grid(lo, hi, {"svf": 8, "srf": 8}.get(k, 1))
        if k == "svf" and all(v in (None, 1.0) for row in g[k] for v in row):
            g[k][0][0] = 0.5  # (an all-integer file is fine, too; keep at least one decimal)
    if "roi" in g:
        g["roi"][r][c] = 1
    case["grids"] = g
    ext = draw(st.booleans())
    if ext:
        pad = [draw(st.integers(0, 2)) for _ in range(4)]
        er, ec = rows + pad[0] + pad[1], cols + pad[2] + pad[3]
        e = [[draw(st.integers(4000, 12000)) / 4 for _ in range(ec)] for _ in range(er)]
        if missing and draw(st.integers(0, 3)) == 0:
            e[draw(st.integers(0, er - 1))][draw(st.integers(0, ec - 1))] = None
        if e[pad[0] + r][pad[2] + c] is None:
            e[pad[0] + r][pad[2] + c] = 2000.0
        case["ext"] = dict(pad=pad, dem=e)
        g.pop("svf", None)
        if draw(st.booleans()):
            case["ext"]["svf"] = [[draw(st.integers(1, 8)) / 8 for _ in range(ec)] for _ in range(er)]
            case["ext"]["svf"][0][0] = 0.5
    return case


def config_for(d, case):
    cfg = synth.base_config(d, case, "callback", dict(
        snow=dict(model="cryolayers"), evapotranspiration=dict(enabled=True),
        meteo=dict(precipitation_correction=[dict(method="srf")] if "srf" in case["grids"] else []),
        glaciers=dict(enabled="glaciers" in case["grids"]),
    ))
    return cfg


def write_all(d, case, change=None):
    """Write the grids; change: {file kind: (array, header changes)}."""
    change = change or {}
    gd = os.path.join(d, "grids")
    os.makedirs(gd, exist_ok=True)
    ints = case["integers"]

    def put(kind, arr, header=None, integers=False):
        a, h = change.get(kind, (arr, {}))
        write(os.path.join(gd, f"{kind}_{synth.DOMAIN}_{case['res']}.asc"), a, case, dict(header or {}, **h), integers)

    put("dem", case["dem"])
    for k, g in case["grids"].items():
        put(k, g, integers=ints and k in ("roi", "lc", "soil", "glaciers"))
    if "ext" in case:
        _, bottom, left, _ = case["ext"]["pad"]
        h = dict(xll=round(case["x"] - left * case["res"], 4), yll=round(case["y"] - bottom * case["res"], 4))
        put("extended-dem", case["ext"]["dem"], h)
        if "svf" in case["ext"]:
            put("extended-svf", case["ext"]["svf"], h)


def start_model(d, case):
    model = synth.make_model(config_for(d, case))
    model.initialize(meteo_callback=lambda m: None)
    return model


def arr(g, fill):
    return np.array([[fill if v is None else v for v in row] for row in g], float)


def inputs(case, rec):
    """Every input grid ends up in the right cells."""
    with synth.workdir() as d:
        write_all(d, case)
        model = start_model(d, case)
        s = model.state
        rows, cols = len(case["dem"]), len(case["dem"][0])
        g = model.grid
        check((g.rows, g.cols) == (rows, cols) and g.resolution == case["res"], "grid size")
        xs = case["x"] + (np.arange(cols) + 0.5) * case["res"]
        ys = case["y"] + (rows - np.arange(rows) - 0.5) * case["res"]
        check(np.allclose(g.xs, xs, rtol=0, atol=1e-4) and np.allclose(g.ys, ys, rtol=0, atol=1e-4), f"coordinates {g.xs} {g.ys} instead of {xs} {ys}")
        X, Y = np.meshgrid(xs, ys)
        dem = arr(case["dem"], np.nan)
        if "ext" in case:
            t, b, l, r = case["ext"]["pad"]
            e = arr(case["ext"]["dem"], np.nan)
            dem = e[t : t + rows, l : l + cols]
        check(np.array_equal(s.base.dem, dem, equal_nan=True), f"elevations {s.base.dem} instead of {dem}")
        roi = arr(case["grids"]["roi"], 0) != 0 if "roi" in case["grids"] else np.ones(dem.shape, bool)
        roi = roi & ~np.isnan(dem)
        check(np.array_equal(g.roi, roi), f"region of interest {g.roi} instead of {roi}")
        check(np.allclose(g.roi_points, np.column_stack((X[roi], Y[roi])), rtol=0, atol=1e-4), "coordinates of the region of interest")
        for k, var, fill in (("lc", "land_cover.land_cover", 0), ("soil", "evapotranspiration.soil_texture", 0), ("glaciers", "glaciers.glacier", 0), ("srf", "base.srf", np.nan), ("svf", "base.svf", np.nan)):
            if k in case["grids"]:
                got, exp = synth.get(model, var), arr(case["grids"][k], fill)
                check(np.array_equal(got, exp, equal_nan=True), f"{k}: {got} instead of {exp}")
        if "ext" in case and "svf" in case["ext"]:
            exp = arr(case["ext"]["svf"], np.nan)[t : t + rows, l : l + cols]
            check(np.array_equal(s.base.svf, exp, equal_nan=True), f"sky view factor {s.base.svf} instead of {exp}")
        # a second run uses the stored sky view factor
        m2 = start_model(d, case)
        check(np.array_equal(m2.state.base.svf, s.base.svf, equal_nan=True), "sky view factor of a second run differs")
    miss = any(v is None for g in [case["dem"], *case["grids"].values()] for row in g for v in row)
    rec.label("extended" if "ext" in case else "plain", *case["grids"])
    rec.nt(miss)


sub("C21", "inputs", grids, quick=160, thorough=3000, budget=25, rule="some values are missing")(inputs)


@st.composite
def mismatches(draw):
    case = draw(grids(missing=False))
    kinds = [k for k in case["grids"]] + (["extended-dem"] if "ext" in case else []) + (["extended-svf"] if "svf" in case.get("ext", {}) else []) + ["dem"]
    kind = draw(st.sampled_from(kinds))
    case["kind"] = kind
    case["change"] = draw(st.sampled_from(["rows", "cols", "res", "x", "y", "transpose", "aniso"] if kind != "dem" else ["res", "aniso"]))
    case["amount"] = draw(st.sampled_from([0.5, 1, -1, 0.25, -0.5, 3]))
    return case


def mismatch(case, rec):
    """Grids which do not match the elevation model are rejected."""
    kind, change, f = case["kind"], case["change"], case["amount"]
    res = case["res"]
    if kind == "dem":
        a = case["dem"]
    elif kind.startswith("extended"):
        a = case["ext"][kind[9:]]
    else:
        a = case["grids"][kind]
    a = [list(r) for r in a]
    h = {}
    accept = False
    left, bottom = 0, 0
    if kind.startswith("extended"):
        top, bottom, left, right = case["ext"]["pad"]
    x, y = case["x"] - left * res, case["y"] - bottom * res
    if change == "rows":
        a = a + [a[-1]] if f > 0 else a[:-1]
        if not a:
            return
        if kind == "extended-dem":
            # rows are added or removed at the top of the georeferenced area
            accept = "svf" not in case["ext"] and (f > 0 or top > 0)
    elif change == "cols":
        a = [r + [r[-1]] if f > 0 else r[:-1] for r in a]
        if not a[0]:
            return
        if kind == "extended-dem":
            accept = "svf" not in case["ext"] and (f > 0 or right > 0)
    elif change == "transpose":
        if len(a) == len(a[0]):
            return
        a = [list(r) for r in zip(*a)]
        if kind == "extended-dem":
            return
    elif change == "res":
        h["res"] = res * 2 if f > 0 else res / 2
    elif change == "x":
        h["xll"] = round(x + f * res, 4)
        if kind == "extended-dem":
            accept = "svf" not in case["ext"] and float(f).is_integer() and left - f >= 0 and right + f >= 0
    elif change == "y":
        h["yll"] = round(y + f * res, 4)
        if kind == "extended-dem":
            accept = "svf" not in case["ext"] and float(f).is_integer() and bottom - f >= 0 and top + f >= 0
    elif change == "aniso":
        h["dy"] = res * 2
    with synth.workdir() as d:
        write_all(d, case, {kind: (a, h)})
        try:
            start_model(d, case)
        except errors.RasterFileError:
            check(not accept, f"matching {kind} rejected ({change} {f})")
            rec.nt(True)
        else:
            check(accept, f"{kind} with different {change} ({f}) accepted")
    rec.label(f"{kind}-{change}", "accepted" if accept else "rejected")


sub("C21", "mismatch", mismatches, quick=240, thorough=4000, budget=20, rule="the grid is rejected")(mismatch)
