"""C22: cloudiness and longwave radiation."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from openamundsen.meteo import atmospheric_pressure
from openamundsen.modules.radiation import sun_parameters

from .. import full, gen, synth
from ..core import check, sub
from .c05 import ref_idw
from .c14 import corripio, ephemeris
from .c18 import SIGMA, T0, WATER, magnus

FORMATS = dict(temp=(255, 295), rel_hum=(5, 100), precip=(0, 6), wind_speed=(0, 12), sw_in=(0, 1100), cloud_fraction=(0, 100))


# ---------------------------------------------------------------- reference
def dew_point(t, rh):
    e = magnus(t, "water") * rh / 100
    a, b, c = WATER
    q = np.log(e / a)
    return T0 + c * q / (b - q)


def factor(frac):
    return np.clip(1 - 0.233 * frac - 0.415 * frac**2, 0, 1)


def fraction(fac):
    """Positive solution of 1 - 0.233 n - 0.415 n2 = factor."""
    return np.clip((-0.233 + np.sqrt(0.233**2 + 4 * 0.415 * (1 - fac))) / (2 * 0.415), 0, 1)


def altitude(pressure):
    """Height of a pressure level in a dry adiabatic atmosphere (inverse of the barometric formula)."""
    exp = 1004.68506 * 0.02896968 / 8.314462618
    return (1 - (pressure / 101325.0) ** (1 / exp)) * 1004.68506 * 288.15 / 9.80665


def from_humidity(t, rh, z, lr, lrd, cfg):
    z700 = altitude(cfg["pressure_level"] * 100)
    dz = z700 - z
    td = dew_point(t, rh)
    rh7 = 100 * magnus(td + lrd * dz) / magnus(t + lr * dz)
    return np.clip(cfg["saturation_cloud_fraction"] * np.exp((rh7 - 100) / (100 - cfg["e_folding_humidity"])), 0, 1)


def sun_elevation(date, case, lon, lat):
    utc = date - pd.Timedelta(hours=case["timezone"])
    dec, eot = ephemeris(utc)
    solar = (utc.hour + utc.minute / 60) * 60 + 4 * lon + eot
    ha = np.deg2rad(solar / 4 - 180)
    la, de = np.deg2rad(lat), np.deg2rad(dec)
    return np.rad2deg(np.arcsin(np.sin(la) * np.sin(de) + np.cos(la) * np.cos(de) * np.cos(ha)))


# ---------------------------------------------------------------- cases
@st.composite
def series(draw, var, n, gaps):
    """Values on a dyadic lattice; gaps: 0 none, 1 some, 2 many, 3 all missing, 4 from some step on."""
    lo, hi = FORMATS[var]
    base = draw(st.integers(0, 64))
    out = []
    start = draw(st.integers(0, n)) if gaps == 4 else 0
    for i in range(n):
        if gaps == 3 or (gaps == 4 and i >= start) or (gaps in (1, 2) and draw(st.integers(0, 7)) < (1, 5)[gaps - 1]):
            out.append(None)
        else:
            k = min(64, max(0, base + draw(st.integers(-16, 16))))
            out.append(lo + (hi - lo) * k / 64)
    return out


@st.composite
def cloud_cases(draw):
    rows, cols = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    n = draw(st.integers(3, 12))
    res = draw(st.sampled_from([50, 100]))
    dem = draw(gen.dem(rows, cols))
    case = dict(
        start=draw(gen.start_dates(hours=(0, 3, 6, 12, 17))), timestep=draw(st.sampled_from(["h", "3h"])), nsteps=n, res=res, dem=dem, grids={},
        timezone=draw(st.sampled_from([1, 0, 2])),
    )
    roi = draw(gen.roi_mask(rows, cols))
    if roi is not None:
        case["grids"]["roi"] = roi
    months = st.lists(gen.num(-0.009, -0.001, 4), min_size=12, max_size=12)
    cloud = dict(
        method=draw(st.sampled_from(["clear_sky_fraction", "humidity", "prescribed"])),
        clear_sky_fraction_night_method=draw(st.sampled_from(["humidity", "constant"])),
        allow_fallback=draw(st.sampled_from([True, True, True, False])),
        pressure_level=draw(st.sampled_from([700, 700, 600, 800])),
        saturation_cloud_fraction=draw(st.sampled_from([0.832, 0.832, 1.0, 0.5])),
        e_folding_humidity=draw(st.sampled_from([58.4, 58.4, 30.0])),
    )
    rad = dict(cloud_emissivity=draw(st.sampled_from([0.976, 0.976, 1.0, 0.9])), rock_emission_factor=draw(st.sampled_from([0.01, 0.01, 0.0, 0.05])))
    snow = draw(st.sampled_from(["multilayer", "cryolayers", "ti"]))
    case["config"] = dict(
        meteo=dict(
            interpolation=dict(
                temperature=dict(trend_method="fixed", lapse_rate=draw(months)), humidity=dict(trend_method="fixed", lapse_rate=draw(months)),
                cloudiness=cloud,
            ),
            radiation=rad,
        ),
        snow=dict(model="multilayer") if snow == "multilayer" else dict(model="cryolayers") if snow == "cryolayers" else gen.TI_SNOW["snow"],
        input_data=dict(meteo=dict(bounds="global")),
    )
    stations = []
    for i in range(draw(st.integers(1, 4))):
        data = {}
        for v in FORMATS:
            g = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5]))
            if v in ("temp", "rel_hum"):
                g = draw(st.sampled_from([0, 0, 0, 1, 2, 4])) if i else draw(st.sampled_from([0, 0, 0, 0, 1]))
            if g < 5:
                data[v] = draw(series(v, n, g))
        stations.append(dict(
            id=draw(st.sampled_from("zyxwabcd")) + str(i),
            x=draw(st.integers(-1, 2 * cols)) * res / 2 + 3.0 + 2 * i, y=draw(st.integers(-1, 2 * rows)) * res / 2 + 7.0,
            alt=float(draw(st.integers(500, 3400))), data=data,
        ))
    if cloud["method"] == "prescribed" and not any("cloud_fraction" in x["data"] for x in stations):
        stations[0]["data"]["cloud_fraction"] = draw(series("cloud_fraction", n, 1))
    case["stations"] = stations
    return case


class Step:
    """The observations of a time step."""

    def __init__(self, case, model, i):
        self.ids = [s["id"] for s in case["stations"]]
        self.x = {k: float(model.meteo.x.sel(station=k)) for k in self.ids}
        self.y = {k: float(model.meteo.y.sel(station=k)) for k in self.ids}
        self.alt = {s["id"]: s["alt"] for s in case["stations"]}
        self.pix, self.data = {}, {}
        for s in case["stations"]:
            self.pix[s["id"]] = (len(case["dem"]) - 1 - int(np.floor(s["y"] / case["res"])), int(np.floor(s["x"] / case["res"])))
            self.data[s["id"]] = {k: v[i] for k, v in s["data"].items() if v[i] is not None}

    def having(self, *names):
        return [k for k in self.ids if all(n in self.data[k] for n in names)]


def clouds(case, rec):
    """Cloudiness of every step compared with a reference implementation of the selection rules."""
    cfg = case["config"]["meteo"]
    cloud, rad = cfg["interpolation"]["cloudiness"], cfg["radiation"]
    dates = synth.dates_of(case)
    rows, cols = len(case["dem"]), len(case["dem"][0])
    lon, lat = synth.lonlat(synth.X0 + cols * case["res"] / 2, synth.Y0 + rows * case["res"] / 2)
    used = set()
    with synth.station_model(case) as model:
        roi = model.grid.roi
        m, s = model.state.meteo, model.state
        rr, cc = np.nonzero(roi)
        tx = synth.X0 + (cc + 0.5) * case["res"]
        ty = synth.Y0 + (rows - rr - 0.5) * case["res"]
        svf = s.base.svf[roi]
        for i, d in enumerate(dates):
            prev = m.cloud_factor[roi].copy()
            swe, tsurf = s.snow.swe[roi].copy(), s.surface.temp[roi].copy()
            model.run_single()
            o = Step(case, model, i)
            fac, fra = m.cloud_factor[roi], m.cloud_fraction[roi]
            clear, sw, lw = m.sw_in_clearsky[roi], m.sw_in[roi], m.lw_in[roi]
            t, rh = m.temp[roi], m.rel_hum[roi]
            ok = np.isfinite(fac)
            check(np.all((fac[ok] >= 0) & (fac[ok] <= 1)), f"{d}: cloud factor {fac}")
            check(np.all(np.isfinite(fra) == ok) and np.allclose(fra[ok], fraction(fac[ok]), rtol=1e-9, atol=1e-9), f"{d}: cloud fraction {fra} for cloud factor {fac}")
            check(np.allclose(sw, clear * fac, rtol=1e-12, atol=0, equal_nan=True), f"{d}: global radiation {sw} is not {clear} x {fac}")

            # longwave radiation
            e = magnus(t) * rh / 100
            w = 46.5 * (e / 100) / t
            em = 1 - (1 + w) * np.exp(-np.sqrt(1.2 + 3 * w))
            rock = np.sum(swe == 0) / len(swe)
            bb = SIGMA * t**4
            exp = bb * svf * (em * (1 - fra**2) + rad["cloud_emissivity"] * fra**2) + SIGMA * (1 - svf) * (
                rock * (t + rad["rock_emission_factor"] * sw) ** 4 + (1 - rock) * tsurf**4
            )
            p = np.isfinite(exp)
            check(np.allclose(lw[p], exp[p], rtol=1e-6, atol=1e-6), f"{d}: longwave radiation {lw}, expected {exp}")
            limit = SIGMA * np.maximum(t + rad["rock_emission_factor"] * np.maximum(sw, 0), np.nan_to_num(tsurf)) ** 4
            check(np.all((lw[p] > 0) & (lw[p] <= limit[p] * (1 + 1e-9))), f"{d}: longwave radiation {lw} exceeds {limit}")

            # method selection
            elev = sun_elevation(d, case, lon, lat)
            if abs(elev) < 1:
                rec.label("sun near the horizon")
                continue
            method, fb = cloud["method"], cloud["allow_fallback"]
            if method == "prescribed" and not o.having("cloud_fraction") and fb:
                method = "clear_sky_fraction"
            inside = [k for k in o.having("sw_in") if 0 <= o.pix[k][0] < rows and 0 <= o.pix[k][1] < cols and roi[o.pix[k]]]
            if method == "clear_sky_fraction":
                if elev < 0:
                    method = cloud["clear_sky_fraction_night_method"]
                elif not inside and fb:
                    method = "humidity"
            if method == "humidity" and not o.having("temp", "rel_hum") and fb:
                method = "constant"
            used.add(method)
            if method == "constant":
                exp = np.where(np.isnan(prev), 0.75, prev)
            else:
                if method == "prescribed":
                    ids = o.having("cloud_fraction")
                    vals = [factor(o.data[k]["cloud_fraction"] / 100) for k in ids]
                elif method == "humidity":
                    ids = o.having("temp", "rel_hum")
                    lr = cfg["interpolation"]["temperature"]["lapse_rate"][d.month - 1]
                    lrd = cfg["interpolation"]["humidity"]["lapse_rate"][d.month - 1]
                    vals = [factor(from_humidity(o.data[k]["temp"], o.data[k]["rel_hum"], o.alt[k], lr, lrd, cloud)) for k in ids]
                else:
                    ids = inside
                    vals = [o.data[k]["sw_in"] / m.sw_in_clearsky[o.pix[k]] for k in ids]
                    keep = np.isfinite(vals)
                    ids, vals = [k for k, g in zip(ids, keep) if g], [v for v, g in zip(vals, keep) if g]
                exp = ref_idw(np.array([o.x[k] for k in ids]), np.array([o.y[k] for k in ids]), np.array(vals), tx, ty)
                exp = np.clip(exp, 0, 1)
            check(np.allclose(fac, exp, rtol=1e-6, atol=1e-6, equal_nan=True), f"{d}: cloud factor {fac}, expected {exp} (method {method}, sun elevation {elev:.1f})")
            if method == "clear_sky_fraction" and len(ids) == 1 and o.data[ids[0]]["sw_in"] <= m.sw_in_clearsky[o.pix[ids[0]]]:
                g = m.sw_in[o.pix[ids[0]]]
                check(abs(g - o.data[ids[0]]["sw_in"]) <= 1e-6, f"{d}: global radiation {g} at the station differs from the measurement")
    rec.label(*used)
    rec.nt(len(used) > 1)


sub("C22", "clouds", cloud_cases, quick=320, thorough=3000, budget=40, rule="at least two methods are used within the run")(clouds)


# ---------------------------------------------------------------- stations in the extended grid
@st.composite
def extended_cases(draw):
    rows, cols = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    n = draw(st.integers(2, 8))
    res = 100
    z = float(draw(st.integers(500, 3000)))
    pad = [draw(st.integers(0, 2)) for _ in range(4)]  # top, bottom, left, right
    pad[draw(st.integers(0, 3))] += 1
    er, ec = rows + pad[0] + pad[1], cols + pad[2] + pad[3]
    temp = [255 + draw(st.integers(0, 120)) / 4 for _ in range(n)]
    rh = [float(draw(st.integers(10, 100))) for _ in range(n)]
    stations = []
    for i in range(draw(st.integers(1, 5))):
        same = draw(st.booleans())
        data = dict(temp=list(temp) if same else draw(series("temp", n, 0)), rel_hum=list(rh) if same else draw(series("rel_hum", n, 0)), sw_in=draw(series("sw_in", n, draw(st.sampled_from([0, 0, 1, 2])))))
        if i and draw(st.integers(0, 5)) == 0:  # (not usable without temperature)
            data["temp"] = [None] * n
        row, col = draw(st.integers(-1, er)), draw(st.integers(-1, ec))
        stations.append(dict(
            id=draw(st.sampled_from("zyxwabcd")) + str(i), x=(col - pad[2]) * res + 20.0 + 11 * i, y=(rows - 1 - (row - pad[0])) * res + 35.0, alt=z, data=data,
        ))
    case = dict(
        start=f"2020-{draw(st.integers(3, 9)):02d}-10 {draw(st.sampled_from([8, 10, 14])):02d}:00", timestep="h", nsteps=n, res=res, dem=[[z] * cols for _ in range(rows)],
        grids={}, timezone=1, ext=dict(pad=pad, dem=[[z] * ec for _ in range(er)]), stations=stations,
        config=dict(
            meteo=dict(interpolation=dict(cloudiness=dict(method="clear_sky_fraction", allow_fallback=True, clear_sky_fraction_night_method="constant"))),
            snow=gen.TI_SNOW["snow"], input_data=dict(meteo=dict(bounds="global")),
        ),
    )
    roi = draw(gen.roi_mask(rows, cols))
    if roi is not None:
        case["grids"]["roi"] = roi
    return case


def extended(case, rec):
    """Radiation stations of the extended grid (flat terrain)."""
    rows, cols = len(case["dem"]), len(case["dem"][0])
    top, bottom, left, right = case["ext"]["pad"]
    lon, lat = synth.lonlat(synth.X0 + cols * case["res"] / 2, synth.Y0 + rows * case["res"] / 2)
    outer = 0
    with synth.station_model(case) as model:
        roi = model.grid.roi
        m = model.state.meteo
        rr, cc = np.nonzero(roi)
        tx = synth.X0 + (cc + 0.5) * case["res"]
        ty = synth.Y0 + (rows - rr - 0.5) * case["res"]
        for i, d in enumerate(synth.dates_of(case)):
            albedo = model.state.surface.albedo[roi].mean()
            albedo = model.config.soil.albedo if np.isnan(albedo) else albedo
            model.run_single()
            if sun_elevation(d, case, lon, lat) < 3:
                continue
            o = Step(case, model, i)
            ids, vals = [], []
            sp = sun_parameters(d, lon, lat, case["timezone"])
            z = np.array([case["dem"][0][0]])
            for k in o.having("sw_in"):
                r, c = o.pix[k]
                if 0 <= r < rows and 0 <= c < cols:
                    if roi[r, c]:
                        ids.append(k)
                        vals.append(o.data[k]["sw_in"] / m.sw_in_clearsky[r, c])
                elif -top <= r < rows + bottom and -left <= c < cols + right and "temp" in o.data[k]:
                    ids.append(k)
                    t, rh = o.data[k]["temp"], o.data[k]["rel_hum"]
                    pw = 46.5 * (magnus(t) * rh / 100 / 100) / t * 10
                    one = np.ones(1)
                    _, _, direct, diffuse = corripio(
                        sp["day_angle"], np.asarray(sp["sun_vector"]), one, z, one, np.array([[0.0, 0.0, 1.0]]), atmospheric_pressure(z), pw, albedo, one, {}
                    )
                    vals.append(o.data[k]["sw_in"] / float((direct + diffuse)[0]))
                    outer += 1
            if not ids:
                continue
            exp = np.clip(ref_idw(np.array([o.x[k] for k in ids]), np.array([o.y[k] for k in ids]), np.array(vals), tx, ty), 0, 1)
            check(np.allclose(m.cloud_factor[roi], exp, rtol=1e-5, atol=1e-6), f"{d}: cloud factor {m.cloud_factor[roi]}, expected {exp} from stations {ids}")
    rec.nt(outer > 0)


sub("C22", "extended", extended_cases, quick=120, thorough=2500, budget=20, rule="a radiation station in the extended grid outside the grid is used")(extended)


# ---------------------------------------------------------------- weather from a callback
@st.composite
def callback_cases(draw):
    case = draw(full.full_case(forcing="columns", nsteps=(2, 8), max_rows=3, max_cols=3, glaciers=False))
    case["start"] = case["start"][:10] + draw(st.sampled_from([" 00:00", " 06:00", " 09:00"]))
    for c in case["columns"]:
        for s in c:
            if draw(st.booleans()):
                s["cf"] = draw(st.sampled_from([0.0, 0.25, 0.5, 1.0]))
    return case


def callback(case, rec):
    """Global radiation is the clear-sky radiation times the prescribed cloud factor of every pixel."""
    lit = False
    with full.open_model(case) as model:
        roi = model.grid.roi
        m = model.state.meteo
        idx = np.arange(roi.size).reshape(roi.shape) % len(case["columns"])
        for i in range(case["nsteps"]):
            model.run_single()
            cf = np.array([synth.expand(c, case["nsteps"], "cf")[i] for c in case["columns"]])[idx][roi]
            got = (m.top_canopy_sw_in if "top_canopy_sw_in" in m._meta else m.sw_in)[roi]
            clear = m.sw_in_clearsky[roi]
            check(np.array_equal(m.cloud_factor[roi], cf), f"{model.date}: cloud factor {m.cloud_factor[roi]} instead of {cf}")
            check(np.allclose(got, clear * cf, rtol=1e-9, atol=1e-9), f"{model.date}: radiation {got}, clear-sky radiation {clear}, cloud factor {cf}")
            lit |= bool(np.any((clear > 0) & (cf > 0) & (cf < 1)))
    rec.label(*full.labels(case))
    rec.nt(lit)


sub("C22", "callback", callback_cases, quick=120, thorough=1500, budget=20, rule="the sun shines on a partly cloudy pixel")(callback)
