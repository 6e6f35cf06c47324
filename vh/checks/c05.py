"""C05: interpolation of station data follows the configured trend + inverse distance scheme."""
import copy

import numpy as np
from hypothesis import strategies as st

from openamundsen import interpolation

from .. import gen, synth
from ..core import check, sub
from .c18 import magnus, WATER

T0 = 273.15
PARAM_VARS = dict(temperature="temp", precipitation="precip", humidity="rel_hum", wind="wind_speed")


# ---------------------------------------------------------------- reference model
def ref_idw(x, y, z, tx, ty, power=2.0, smoothing=0.0):
    out = np.full(len(tx), np.nan)
    for i in range(len(tx)):
        d2 = (tx[i] - x) ** 2 + (ty[i] - y) ** 2 + smoothing**2
        if len(x) == 0:
            continue
        if np.any(d2 == 0):
            out[i] = z[np.flatnonzero(d2 == 0)[0]]
        else:
            w = d2 ** (-power / 2)
            out[i] = np.sum(w * z) / np.sum(w)
    return out


def slope_of(z, v):
    """Least-squares slope by the textbook formula; 0 if undefined."""
    if len(np.unique(z)) < 2:
        return 0.0
    dz = z - z.mean()
    return np.sum(dz * (v - v.mean())) / np.sum(dz**2)


def ref_field(data, x, y, z, tx, ty, tz, method, lapse_rate):
    if method == "adjustment_factor":
        base = ref_idw(x, y, data, tx, ty)
        dz = tz - ref_idw(x, y, z, tx, ty)
        return base * (1 + lapse_rate * dz) / (1 - lapse_rate * dz)
    g = {
        "regression": lambda: slope_of(z, data),
        "fixed": lambda: lapse_rate,
        "fractional": lambda: lapse_rate * data.mean(),
    }[method]()
    return ref_idw(x, y, data - g * z, tx, ty) + g * tz


def dew_point_water(t, rh):
    e = magnus(t, "water") * rh / 100
    a, b, c = WATER
    q = np.log(e / a)
    return T0 + c * q / (b - q)


RANGES = dict(
    temp=(0, None), precip=(0, None), rel_hum=(0, 100), wind_speed=(0.1, None),
    wind_speed_gust=(0.1, None), wind_vec=(None, None),
)


def finish(field, data, extrapolate, var):
    if not extrapolate and len(data):
        field = np.clip(field, data.min(), data.max())
    lo, hi = RANGES[var]
    return field if lo is None and hi is None else np.clip(field, lo, hi)


class Net:
    def __init__(self, model):
        self.meteo = model.meteo
        self.model = model
        roi = model.grid.roi
        self.tx = model.grid.X[roi]
        self.ty = model.grid.Y[roi]
        self.tz = model.state.base.dem[roi].copy()

    def obs(self, names, i):
        d = [self.meteo[n].isel(time=i).values.astype(float) for n in names]
        ok = np.all(np.isfinite(d), axis=0)
        return [v[ok] for v in d] + [self.meteo[c].values[ok].astype(float) for c in ("x", "y", "alt")]


def expected(net, case, i):
    """Reference fields for time step i; case['config'] holds explicit settings for all parameters."""
    cfgs = case["config"]["meteo"]["interpolation"]
    month = synth.dates_of(case)[i].month - 1
    out = {}

    def interp(var, cfg, data, x, y, z):
        n = len(net.tx)
        if len(data) == 0:
            return np.full(n, 0.0 if var == "precip" else np.nan)
        return ref_field(
            data, x, y, z, net.tx, net.ty, net.tz, cfg["trend_method"], cfg["lapse_rate"][month]
        )

    for par in ("temperature", "precipitation"):
        var = PARAM_VARS[par]
        d, x, y, z = net.obs([var], i)
        out[var] = finish(interp(var, cfgs[par], d, x, y, z), d, cfgs[par]["extrapolate"], var)

    rh, t, x, y, z = net.obs(["rel_hum", "temp"], i)
    td = interp("rel_hum", cfgs["humidity"], dew_point_water(t, rh), x, y, z)
    f = 100 * magnus(td, "water") / magnus(out["temp"], "water")
    out["rel_hum"] = finish(f, rh, cfgs["humidity"]["extrapolate"], "rel_hum")

    w = cfgs["wind"]
    if w["method"] == "idw":
        for var in ("wind_speed", "wind_speed_gust"):
            if var in net.meteo:
                d, x, y, z = net.obs([var], i)
                out[var] = finish(interp(var, w, d, x, y, z), d, w["extrapolate"], var)
    else:
        for var in ("wind_speed", "wind_speed_gust"):
            if var in net.meteo:
                ws, wd, x, y, z = net.obs([var, "wind_dir"], i)
                u = -ws * np.sin(np.deg2rad(wd))
                v = -ws * np.cos(np.deg2rad(wd))
                uf = finish(interp("wind_vec", w, u, x, y, z), u, w["extrapolate"], "wind_vec")
                vf = finish(interp("wind_vec", w, v, x, y, z), v, w["extrapolate"], "wind_vec")
                speed = np.hypot(uf, vf)
                b = net.model.state.base
                roi = net.model.grid.roi
                omega_s = np.deg2rad(b.slope[roi]) * (
                    # cos(direction - aspect), with the direction the wind comes from
                    (-uf * np.sin(np.deg2rad(b.aspect[roi])) - vf * np.cos(np.deg2rad(b.aspect[roi])))
                    / np.where(speed > 0, speed, np.nan)
                )
                # (flat terrain: no direction and no slope)
                omega_s = np.where(b.slope[roi] == 0, 0.0, omega_s)
                rng = np.ptp(omega_s)
                scaled = (
                    (omega_s - omega_s.min()) / rng - 0.5 if rng > 1e-12 else np.zeros(len(omega_s))
                )
                f = speed * (
                    1 + w["slope_weight"] * scaled + w["curvature_weight"] * b.scaled_curvature[roi]
                )
                amb = (rng <= 1e-9) | (speed.min() < 1e-6)
                out[var] = None if amb and rng > 0 else np.clip(f, 0.1, None)
                if var == "wind_speed":
                    out["_uv"] = (uf, vf, scaled, amb)
    return out


# ---------------------------------------------------------------- generators
def obs_value(var):
    return {
        "temp": gen.num(-25, 25).map(lambda t: round(T0 + t, 2)),
        "precip": gen.sparse(1, gen.num(0, 20)),
        "rel_hum": gen.num(5, 100, 1),
        "wind_speed": gen.num(0, 20, 1),
        "wind_speed_gust": gen.num(0, 30, 1),
        "wind_dir": gen.num(0, 359, 0),
        "sw_in": gen.num(0, 900, 0),
    }[var]


@st.composite
def stations(draw, case, variables, nmax=5, missing=True, nmin=1):
    rows, cols, res = len(case["dem"]), len(case["dem"][0]), case["res"]
    out, used = [], set()
    same_alt = draw(st.integers(0, 7)) == 0
    alt0 = draw(st.integers(500, 3200))
    n = draw(st.integers(nmin, nmax))
    while len(out) < n:
        if draw(st.booleans()):
            r, c = draw(st.integers(0, rows - 1)), draw(st.integers(0, cols - 1))
            x, y = (c + 0.5) * res, (rows - r - 0.5) * res
        else:
            x = float(draw(st.integers(-2 * cols, 3 * cols))) * res / 2 + 3.0
            y = float(draw(st.integers(-2 * rows, 3 * rows))) * res / 2 + 7.0
        if (x, y) in used:
            x += 11.0 * (len(out) + 1)
        used.add((x, y))
        data = {}
        for v in variables:
            data[v] = [
                None if missing and draw(st.integers(0, 5)) == 0 else draw(obs_value(v))
                for _ in range(case["nsteps"])
            ]
        out.append(
            dict(id=f"s{len(out)}", x=x, y=y, data=data,
                 alt=float(alt0 if same_alt else draw(st.integers(500, 3500))))
        )
    return out


@st.composite
def lapse_rates(draw, lo, hi, decimals=5):
    base = draw(gen.num(lo, hi, decimals))
    step = draw(gen.num(0, (hi - lo) / 20, decimals))
    return [round(base + step * m, 6) for m in range(12)]


@st.composite
def base_case(draw, min_size=1, max_size=5):
    rows = draw(st.integers(min_size, max_size))
    cols = draw(st.integers(min_size, max_size))
    case = dict(
        start=draw(gen.start_dates(hours=(0, 21))),
        timestep=draw(st.sampled_from(["h", "3h"])),
        nsteps=draw(st.integers(1, 3)),
        res=draw(st.sampled_from([20, 100, 1000])),
        dem=draw(gen.dem(rows, cols)),
    )
    if rows * cols > 3 and draw(st.booleans()):
        roi = [[int(draw(st.integers(0, 3)) > 0) for _ in range(cols)] for _ in range(rows)]
        if any(map(any, roi)):
            case["grids"] = {"roi": roi}
    return case


@st.composite
def network(draw, wind="idw", missing=True):
    liston = wind == "liston"
    case = draw(base_case(3 if liston else 1))
    variables = ["temp", "precip", "rel_hum", "wind_speed", "sw_in"]
    if liston or draw(st.booleans()):
        variables.append("wind_dir")
    if draw(st.booleans()):
        variables.append("wind_speed_gust")
    case["stations"] = draw(stations(case, variables, missing=missing))
    ip = {}
    for par, methods, lo, hi in [
        ("temperature", ["regression", "fixed"], -0.01, 0.01),
        ("precipitation", ["regression", "adjustment_factor", "fractional"], -0.0001, 0.0001),
        ("humidity", ["regression", "fixed"], -0.01, 0.005),
        ("wind", ["regression", "fixed"], -0.003, 0.005),
    ]:
        ip[par] = dict(
            trend_method=draw(st.sampled_from(methods)),
            lapse_rate=draw(lapse_rates(lo, hi)),
            extrapolate=draw(st.booleans()),
        )
    ip["wind"].update(
        method=wind,
        curvature_length_scale=draw(st.sampled_from([case["res"], 1.5 * case["res"], 1750])),
        slope_weight=draw(gen.num(0, 1)),
        curvature_weight=draw(gen.num(0, 1)),
    )
    if wind == "idw":
        for k in ("curvature_length_scale", "slope_weight", "curvature_weight"):
            ip["wind"].pop(k)
    # settings of the regression are irrelevant for the other methods
    if draw(st.integers(0, 3)) == 0:
        for par in ("temperature", "humidity"):
            if ip[par]["trend_method"] == "fixed":
                ip[par]["regression_params"] = dict(max_segments=2)
    case["config"] = dict(meteo=dict(interpolation=ip))
    return case


def compare(name, got, exp, i, tol):
    check(np.array_equal(np.isnan(got), np.isnan(exp)),
          f"{name}, step {i}: missing values differ: {got} instead of {exp}")
    ok = np.isfinite(exp)
    err = np.abs(got[ok] - exp[ok])
    check(np.all(err <= tol * (1 + np.abs(exp[ok]))), f"{name}, step {i}: {got} instead of {exp}")


def check_fields(case, rec):
    with synth.station_model(case) as model:
        net = Net(model)
        roi = model.grid.roi
        for i in range(case["nsteps"]):
            model.run_single()
            exp = expected(net, case, i)
            m = model.state.meteo
            for var in ("temp", "precip", "rel_hum", "wind_speed", "wind_speed_gust"):
                if exp.get(var) is None:
                    continue
                compare(var, m[var][roi], exp[var], i, 1e-6)
                check(np.all(np.isnan(m[var][~roi])), f"{var} has values outside the ROI")
                rec.nt(np.nanstd(exp[var]) > 0)
            if "_uv" in exp:
                uf, vf, scaled, amb = exp["_uv"]
                if not amb and np.all(np.isfinite(uf)):
                    d0 = np.rad2deg(np.arctan2(-uf, -vf))
                    dev = (m.wind_dir[roi] - d0 + 180) % 360 - 180
                    check(np.all(np.abs(dev) <= np.rad2deg(0.25) + 1e-6),
                          f"wind direction deflected by {dev}")
                    # Liston and Elder (2006), eq. (18) (in degrees, or radians converted to degrees)
                    law = -0.5 * scaled * np.sin(-2 * np.deg2rad(d0 - model.state.base.aspect[roi]))
                    # (flat terrain has no aspect)
                    law = np.where(model.state.base.slope[roi] == 0, dev, law)
                    check(any(np.allclose(dev, x, atol=1e-5) for x in (law, np.where(model.state.base.slope[roi] == 0, dev, np.rad2deg(law)))),
                          f"wind direction deflected by {dev} instead of {law}")
                    check(np.all((m.wind_dir[roi] >= 0) & (m.wind_dir[roi] <= 360)), "wind direction range")


RULE = "at least one interpolated field varies over the region"
sub("C05", "idw_fields", lambda: network("idw"), quick=320, rule=RULE, budget=40)(check_fields)
sub("C05", "liston_fields", lambda: network("liston"), quick=120, rule=RULE, budget=30)(check_fields)


# ---------------------------------------------------------------- metamorphic relations
@st.composite
def relation_case(draw):
    case = draw(network(draw(st.sampled_from(["idw", "idw", "liston"])) if False else "idw"))
    case["perm"] = draw(st.permutations(list(range(len(case["stations"])))))
    case["ghost_alt"] = draw(st.integers(0, 4000))
    return case


def run_fields(case, stations=None):
    out = []
    with synth.station_model(case, stations=stations) as model:
        for _ in range(case["nsteps"]):
            model.run_single()
            out.append({v: model.state.meteo[v].copy() for v in
                        ("temp", "precip", "rel_hum", "wind_speed", "sw_in", "cloud_fraction")})
    return out


def relations(case, rec):
    ref = run_fields(case)
    sts = case["stations"]
    rec.nt(len(sts) > 1)
    # the order of the stations and stations without data do not matter
    other = [copy.deepcopy(sts[i]) for i in case["perm"]]
    ghost = copy.deepcopy(sts[0])
    ghost.update(id="ghost", x=sts[0]["x"] + 5.0, y=sts[0]["y"] + 5.0, alt=float(case["ghost_alt"]))
    ghost["data"] = {k: [None] * case["nsteps"] for k in ghost["data"]}
    other.insert(len(other) // 2, ghost)
    got = run_fields(case, other)
    for i, (a, b) in enumerate(zip(ref, got)):
        for v in a:
            ok = np.isfinite(a[v])
            check(np.array_equal(ok, np.isfinite(b[v])), f"{v}: station order changes missing values")
            check(np.allclose(a[v][ok], b[v][ok], rtol=1e-7, atol=1e-7),
                  f"{v}, step {i} depends on the station order or on a station without data:\n{a[v]}\n{b[v]}")


sub("C05", "relations", relation_case, quick=100, rule="more than one station", budget=25)(relations)


# ---------------------------------------------------------------- piecewise regression
@st.composite
def piecewise(draw):
    case = draw(base_case())
    case["nsteps"] = 1
    case["dem"] = [[min(max(v, 900.0), 2900.0) for v in row] for row in case["dem"]]
    n = draw(st.integers(1, 10))
    res, rows, cols = case["res"], len(case["dem"]), len(case["dem"][0])
    kind = draw(st.sampled_from(["linear", "hat", "noise"]))
    a = draw(gen.num(-0.01, 0.01, 4))
    b = draw(gen.num(-0.01, 0.01, 4))
    sts = []
    for i in range(n):
        alt = 600.0 + 2600.0 * i / max(n - 1, 1) + draw(st.integers(-80, 80))
        if kind == "linear":
            t = 275 + a * (alt - 1500)
        elif kind == "hat":
            t = 275 + (a if alt < 1800 else b) * (alt - 1800)
        else:
            t = 275 + a * (alt - 1500) + draw(gen.num(-2, 2))
        sts.append(dict(id=f"s{i}", x=(i % cols + 0.5) * res, y=(rows + 2 + i) * res * 1.0, alt=alt,
                        data=dict(temp=[t], precip=[0.0], rel_hum=[draw(gen.num(20, 100, 0))],
                                  wind_speed=[2.0], sw_in=[None])))
    # a station exactly in the middle of a cell, at the elevation of the cell
    r, c = draw(st.integers(0, rows - 1)), draw(st.integers(0, cols - 1))
    sts[0].update(x=(c + 0.5) * res, y=(rows - r - 0.5) * res)
    on_terrain = kind != "hat" and draw(st.booleans())
    if on_terrain:
        sts[0]["alt"] = case["dem"][r][c]
        if kind == "linear":
            sts[0]["data"]["temp"] = [275 + a * (sts[0]["alt"] - 1500)]
    case.update(stations=sts, kind=kind, grad=a, cell=[r, c], on_terrain=on_terrain)
    reg = dict(max_segments=draw(st.integers(2, 3)), min_points_per_segment=draw(st.sampled_from([2, 4])))
    case["config"] = dict(
        meteo=dict(interpolation=dict(
            temperature=dict(trend_method="regression", regression_params=reg),
            humidity=dict(trend_method="regression", regression_params=reg),
        ))
    )
    return case


def check_piecewise(case, rec):
    with synth.station_model(case) as model:
        roi = model.grid.roi
        model.run_single()
        t = model.state.meteo.temp
        rh = model.state.meteo.rel_hum
        z = model.state.base.dem
        sts = case["stations"]
        vals = np.array([s["data"]["temp"][0] for s in sts])
        alts = np.array([s["alt"] for s in sts])
        check(np.all(np.isfinite(t[roi])) and np.all(np.isfinite(rh[roi])), "missing values")
        check(np.all((rh[roi] >= 0) & (rh[roi] <= 100)), "humidity out of range")
        if case["kind"] == "linear" and len(set(alts)) > 1:
            inside = roi & (z >= alts.min()) & (z <= alts.max())
            exp = 275 + case["grad"] * (z - 1500)
            check(np.allclose(t[inside], exp[inside], atol=1e-3),
                  f"a linear profile is not reproduced: {t} instead of {exp}")
            rec.nt(len(sts) > 3 and np.any(inside))
        if case["on_terrain"]:
            r, c = case["cell"]
            if roi[r, c]:
                check(abs(t[r, c] - vals[0]) < 1e-3, f"{t[r, c]} at a station with {vals[0]}")
                rec.nt(len(sts) > 3)
        rec.label(case["kind"], model._interpolation["temp"]["gradient_type"]
                  if isinstance(getattr(model, "_interpolation", None), dict) else "?")


sub("C05", "piecewise", piecewise, quick=48, thorough=400, budget=40,
    rule="more than 3 stations and a target with a known result")(check_piecewise)


# ---------------------------------------------------------------- the interpolation function itself
@st.composite
def points(draw):
    n = draw(st.integers(0, 12))
    m = draw(st.integers(1, 30))
    co = st.integers(-50, 50).map(float)
    seen, pts = set(), []
    for _ in range(n):
        p = (draw(co), draw(co))
        if p not in seen:
            seen.add(p)
            pts.append([*p, draw(st.one_of(st.none(), *[gen.num(-100, 100)] * 5))])
    return dict(
        pts=pts,
        targets=[[draw(co), draw(co)] for _ in range(m)],
        power=draw(st.sampled_from([0.5, 1, 2, 2, 3])),
        smoothing=draw(st.sampled_from([0, 0, 5, 20])),
    )


def idw(case, rec):
    p = np.array([[np.nan if v is None else v for v in q] for q in case["pts"]], float).reshape(-1, 3)
    t = np.array(case["targets"], float)
    args = (p[:, 0].copy(), p[:, 1].copy(), p[:, 2].copy(), t[:, 0].copy(), t[:, 1].copy())
    keep = [a.copy() for a in args]
    got = interpolation.idw(*args, power=case["power"], smoothing=case["smoothing"])
    for a, b in zip(args, keep):
        check(np.array_equal(a, b, equal_nan=True), "an input was modified")
    ok = np.isfinite(p[:, 2])
    x, y, z = p[ok].T if ok.any() else (np.array([]),) * 3
    exp = ref_idw(x, y, z, t[:, 0], t[:, 1], case["power"], case["smoothing"])
    check(got.shape == exp.shape, "shape")
    check(np.allclose(got, exp, rtol=1e-9, atol=1e-9, equal_nan=True), f"{got} instead of {exp}")
    if len(z):
        check(np.all((got >= z.min() - 1e-9) & (got <= z.max() + 1e-9)), "outside of the data range")
    rec.nt(len(z) > 1)


sub("C05", "idw", points, quick=1600, rule="more than one point with data", budget=20)(idw)
