"""C13: precipitation phase and gauge undercatch correction."""
import numpy as np
from hypothesis import strategies as st

from openamundsen import meteo as oameteo

from .. import gen, synth
from ..core import check, sub
from . import c05

T0 = 273.15


def fraction(t, thr, rng):
    if rng == 0:
        return np.where(t < thr, 1.0, 0.0)
    return np.clip((thr + rng / 2 - t) / rng, 0, 1)


# ---------------------------------------------------------------- phase in model runs
@st.composite
def phase_case(draw):
    rows, cols = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    thr = round(T0 + draw(gen.num(-1, 3)), 2)
    rng = draw(st.sampled_from([0.0, 0.5, 1.0, 2.0, 4.0]))

    def weather():
        near = draw(st.booleans())
        t = thr + draw(gen.num(-2.5, 2.5)) if near else T0 + draw(gen.num(-25, 25))
        return dict(n=1, t=round(t, 2), p=draw(gen.sparse(1, gen.num(0, 20))), rh=draw(gen.num(5, 100, 1)),
                    u=2.0, cf=0.5, cl=0.5)

    nsteps = draw(st.integers(1, 3))
    ncol = rows * cols
    case = dict(
        start=draw(gen.start_dates()), timestep="h", nsteps=nsteps, res=50,
        dem=draw(gen.dem(rows, cols)),
        columns=[[weather() for _ in range(nsteps)] for _ in range(ncol)],
    )
    pp = dict(
        method=draw(st.sampled_from(["temp", "wet_bulb_temp"])), threshold_temp=thr, temp_range=rng,
        enforce_no_snow_below_rain=draw(st.booleans()),
    )
    case["config"] = dict(meteo=dict(precipitation_phase=pp),
                          snow=dict(model=draw(st.sampled_from(["multilayer", "cryolayers"]))))
    if draw(st.booleans()):
        srf = [[draw(st.sampled_from([0.0, 0.5, 0.875, 1.0, 1.75])) for _ in range(cols)] for _ in range(rows)]
        case["grids"] = {"srf": srf}
        case["config"]["meteo"]["precipitation_correction"] = [dict(method="srf")]
    if ncol > 2 and draw(st.booleans()):
        case.setdefault("grids", {})["roi"] = [
            [int(draw(st.integers(0, 4)) > 0 or (i, j) == (0, 0)) for j in range(cols)]
            for i in range(rows)
        ]
    return case


def phase(case, rec):
    pp = case["config"]["meteo"]["precipitation_phase"]
    thr, rng = pp["threshold_temp"], pp["temp_range"]
    with synth.column_model(case) as model:
        roi = model.grid.roi
        dem = model.state.base.dem[roi]
        srf = np.array(case["grids"]["srf"], float)[roi] if "srf" in (case.get("grids") or {}) else 1.0
        idx = (np.arange(roi.size).reshape(roi.shape) % len(case["columns"]))[roi]
        for i in range(case["nsteps"]):
            model.run_single()
            m = model.state.meteo
            p = np.array([synth.expand(c, case["nsteps"], "p")[i] for c in case["columns"]])[idx]
            t = m.temp[roi] if pp["method"] == "temp" else m.wet_bulb_temp[roi]
            if pp["method"] == "temp":
                exp_t = np.array([synth.expand(c, case["nsteps"], "t")[i] for c in case["columns"]])[idx]
                check(np.array_equal(t, exp_t), "air temperature changed")
            f = fraction(t, thr, rng)
            amb = (np.abs(t - thr) < 1e-9) if rng == 0 else np.zeros(len(t), bool)
            if pp["enforce_no_snow_below_rain"]:
                sure = (f == 0) & (np.abs(t - thr) > 1e-9 + rng / 2)
                if np.any(sure != (f == 0)):
                    continue  # whether the pixel at the very threshold is all rain is a matter of rounding
                if np.any(f == 0):
                    below = dem <= dem[f == 0].max()
                    rec.label("enforced" if np.any(f[below] > 0) else "rain")
                    f = np.where(below, 0.0, f)
            snow, rain = f * p * srf, (1 - f) * p
            ok = ~amb
            for name, exp in (("snowfall", snow), ("rainfall", rain), ("precip", snow + rain)):
                got = m[name][roi]
                check(np.allclose(got[ok], exp[ok], rtol=1e-9, atol=1e-9),
                      f"step {i}: {name} {got} instead of {exp} (temperature {t}, precipitation {p})")
            check(np.allclose(m.snowfall[roi] + m.rainfall[roi], m.precip[roi], rtol=1e-12, atol=1e-12),
                  "snow and rain do not sum up to the precipitation")
            check(np.all(m.snowfall[roi] >= 0) and np.all(m.rainfall[roi] >= 0), "negative precipitation")
            rec.nt(np.any((snow > 0)) and np.any(rain > 0))
            if np.any((f > 0) & (f < 1) & (p > 0)):
                rec.label("mixed")


sub("C13", "phase", phase_case, quick=500, rule="rain and snow occur in the same step", budget=40)(phase)


# ---------------------------------------------------------------- gauge correction
WMO = ["nipher", "tretyakov", "us_sh", "us_unsh", "hellmann"]
KOCH = {
    "us_un": (0.045, 1.21, 0.66, 8),
    "all_sa": (0.03, 1.04, 0.57, 12),
    "nor_sa": (0.05, 0.66, 0.23, 12),
    "us_sa": (0.03, 1.06, 0.63, 12),
    "us_da": (0.021, 0.74, 0.66, 8),
    "us_bda": (0.01, 0.48, 0.51, 8),
    "us_sdfir": (0.004, 0.00, 0.00, 8),
}


def wmo_catch(gauge, kind, u, t):
    """Catch ratio in percent after Goodison et al. (1998); t in degC."""
    if kind == "rain":
        return 100.0
    snow = kind == "snow"
    if gauge == "nipher":
        return 100 - 0.44 * u**2 - 1.98 * u if snow else 97.29 - 3.18 * u + (0.58 - 0.67) * t
    if gauge == "tretyakov":
        return 103.11 - 8.67 * u + 0.30 * t if snow else 96.99 - 4.46 * u + (0.88 + 0.22) * t
    if gauge == "us_sh":
        return np.exp(4.61 - 0.04 * u**1.75) if snow else 101.04 - 5.62 * u
    if gauge == "us_unsh":
        return np.exp(4.61 - 0.16 * u**1.28) if snow else 100.77 - 8.34 * u
    if gauge == "hellmann":
        return (100 + 1.13 * u**2 - 19.45 * u if snow
                else 96.63 + 0.41 * u**2 - 9.84 * u + 5.95 * t)
    raise AssertionError


@st.composite
def gauge_case(draw):
    case = draw(c05.base_case(max_size=2))
    case["nsteps"] = draw(st.integers(1, 4))
    case.pop("grids", None)
    case["stations"] = draw(
        c05.stations(case, ["temp", "precip", "rel_hum", "wind_speed", "sw_in"], nmax=4))
    thr = round(T0 + draw(gen.num(-1, 2)), 2)
    rng = draw(st.sampled_from([0.0, 1.0, 2.0, 4.0]))
    for s in case["stations"]:
        s["data"]["temp"] = [
            None if v is None else round(thr + (v - T0) / draw(st.sampled_from([1, 8])), 2)
            for v in s["data"]["temp"]
        ]
        s["data"]["precip"] = [None if v is None else v or draw(st.sampled_from([0.0, 1.0]))
                               for v in s["data"]["precip"]]
    corr = []
    for _ in range(draw(st.integers(1, 2))):
        method = draw(st.sampled_from(["constant_scf", "wmo", "kochendorfer"]))
        if method == "constant_scf":
            corr.append(dict(method=method, scf=draw(gen.num(0.5, 2.5))))
        else:
            corr.append(dict(method=method, gauge=draw(
                st.sampled_from(WMO if method == "wmo" else sorted(KOCH)))))
    case["mh"] = dict(wind=draw(st.sampled_from([2.0, 5.0, 10.0])),
                      temperature=draw(st.sampled_from([1.5, 2.0])))
    case["config"] = dict(meteo=dict(
        precipitation_correction=corr,
        precipitation_phase=dict(method=draw(st.sampled_from(["temp", "wet_bulb_temp"])),
                                 threshold_temp=thr, temp_range=rng),
        measurement_height=case["mh"],
        interpolation=dict(temperature=dict(trend_method=draw(st.sampled_from(["regression", "fixed"]))),
                           humidity=dict(trend_method=draw(st.sampled_from(["regression", "fixed"])))),
    ))
    case["transposed"] = draw(st.integers(0, 3)) == 0
    return case


TEMP_LR = [-0.0026, -0.0035, -0.0047, -0.0053, -0.0052, -0.0053, -0.0049, -0.0047, -0.0042, -0.0033,
           -0.0035, -0.0031]
HUM_LR = [-0.0044, -0.0046, -0.0049, -0.0048, -0.0046, -0.0047, -0.0043, -0.0042, -0.0045, -0.0044,
          -0.0047, -0.0046]


def fill(values, x, y, z, method, lr, var, extrapolate=True):
    """Fill missing station values from the other stations."""
    miss = np.isnan(values)
    if not miss.any() or miss.all():
        return values
    v = values.copy()
    f = c05.ref_field(values[~miss], x[~miss], y[~miss], z[~miss], x[miss], y[miss], z[miss], method, lr)
    v[miss] = c05.finish(f, values[~miss], extrapolate, var)
    return v


def factors(case, sf, t, u):
    out = np.ones(len(sf))
    tc = t - T0
    for c in case["config"]["meteo"]["precipitation_correction"]:
        if c["method"] == "constant_scf":
            f = 1 + sf * (c["scf"] - 1)
        elif c["method"] == "wmo":
            mh = case["mh"]
            ug = np.minimum(u * np.log(mh["temperature"] / 0.01) / np.log(mh["wind"] / 0.01), 7)
            f = np.array([
                100 / wmo_catch(c["gauge"], "snow" if s == 1 else "rain" if s == 0 else "mixed", uu, tt)
                for s, uu, tt in zip(sf, ug, tc)
            ])
        else:
            a, b, cc, umax = KOCH[c["gauge"]]
            f = 1 / np.exp(-a * np.minimum(u, umax) * (1 - np.arctan(b * tc) + cc))
        out *= np.where(np.isnan(f), 1.0, f)
    return out


def gauges(case, rec):
    pp = case["config"]["meteo"]["precipitation_phase"]
    ip = case["config"]["meteo"]["interpolation"]
    meteo = synth.stations_dataset(case)
    if case["transposed"]:
        meteo = meteo.transpose("time", "station")
    keep = meteo.copy(deep=True)
    with synth.station_model(case, meteo=meteo) as model:
        check(meteo.identical(keep), "the dataset passed in was modified")
        m = model.meteo
        x, y, z = (m[k].values.astype(float) for k in ("x", "y", "alt"))
        for v in keep.data_vars:
            if v != "precip" and keep[v].dtype.kind == "f":
                check(np.array_equal(m[v].transpose(*keep[v].dims).values, keep[v].values, equal_nan=True),
                      f"{v} was changed by the precipitation correction")
        for i, date in enumerate(synth.dates_of(case)):
            raw = {k: keep[k].isel(time=i).values.astype(float)
                   for k in ("temp", "rel_hum", "wind_speed", "precip")}
            got = m["precip"].isel(time=i).values
            p = raw["precip"]
            check(np.array_equal(np.isnan(got), np.isnan(p)), "missing values changed")
            pos = p > 0
            check(np.all(got[p == 0] == 0), "precipitation from nothing")
            if not pos.any():
                continue
            mon = date.month - 1
            t = fill(raw["temp"], x, y, z, ip["temperature"]["trend_method"], TEMP_LR[mon], "temp")
            u = fill(raw["wind_speed"], x, y, z, "regression", np.nan, "wind_speed", False)
            rh = raw["rel_hum"].copy()
            miss = np.isnan(rh)
            if miss.any() and not miss.all():
                ok = ~miss & np.isfinite(t)
                if ok.any():
                    td = c05.ref_field(c05.dew_point_water(t[ok], rh[ok]), x[ok], y[ok], z[ok],
                                       x[miss], y[miss], z[miss],
                                       ip["humidity"]["trend_method"], HUM_LR[mon])
                    rh[miss] = np.clip(
                        100 * c05.magnus(td, "water") / c05.magnus(t[miss], "water"), 0, 100)
            if pp["method"] == "temp":
                cand = [t]
                tol = 1e-7
            else:
                pa = oameteo.atmospheric_pressure(z)
                e = c05.magnus(t) * rh / 100
                q = 0.622 * e / (pa - 0.378 * e)
                g = 1004.68506 * (1 + 0.84 * q) * pa / (0.622 * (2.501e6 - 2361 * (t - T0)))
                with np.errstate(all="ignore"):
                    tw = oameteo.wet_bulb_temperature(t, rh, e, g)
                # (solved iteratively)
                cand = [tw + d for d in np.linspace(-0.05, 0.05, 21)]
                tol = 1e-7
            exp = []
            for tt in cand:
                sf = np.nan_to_num(fraction(tt, pp["threshold_temp"], pp["temp_range"]), nan=0.0)
                # rounding at the boundaries of the mixed zone
                exp.append(p * factors(case, sf, t, u))
            for d in (-1e-6, 1e-6):
                sf = np.nan_to_num(fraction(cand[len(cand) // 2] + d, pp["threshold_temp"],
                                            pp["temp_range"]), nan=0.0)
                exp.append(p * factors(case, sf, t, u))
            exp = np.array(exp)
            lo, hi = exp.min(axis=0), exp.max(axis=0)
            only_scf = all(c["method"] == "constant_scf"
                           for c in case["config"]["meteo"]["precipitation_correction"])
            near = np.any(np.abs(exp - got) <= tol * (1 + np.abs(exp)), axis=0)
            inside = (got >= lo - 1e-7 * (1 + lo)) & (got <= hi + 1e-7 * (1 + hi))
            # a constant factor depends continuously on the fraction; mixtures of both kinds too
            good = inside if (only_scf or len(cand) > 1) else near | (inside & (hi - lo < 1e-3))
            check(np.all(good[pos]),
                  f"{date}: corrected precipitation {got[pos]}, expected {exp[len(cand) // 2][pos]} "
                  f"(measured {p[pos]}, temperature {t[pos] - T0}, wind {u[pos]})")
            rec.nt(np.any(np.abs(got[pos] - p[pos]) > 1e-6))
            for c in case["config"]["meteo"]["precipitation_correction"]:
                rec.label(c.get("gauge", c["method"]))


sub("C13", "gauges", gauge_case, quick=600, rule="precipitation was changed by the correction", budget=45)(gauges)
