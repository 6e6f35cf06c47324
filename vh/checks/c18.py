"""C18: derived atmospheric variables satisfy their defining relations."""
import numpy as np
from hypothesis import strategies as st

from openamundsen import meteo

from .. import gen, synth
from ..core import check, sub

T0 = 273.15
SIGMA = 5.670374419e-8
WATER = (610.78, 17.08, 234.18)
ICE = (610.71, 22.44, 272.44)


def magnus(t, over=None):
    tc = np.asarray(t, float) - T0
    w = WATER[0] * np.exp(WATER[1] * tc / (WATER[2] + tc))
    i = ICE[0] * np.exp(ICE[1] * tc / (ICE[2] + tc))
    if over == "water":
        return w
    if over == "ice":
        return i
    return np.where(tc >= 0, w, i)


def buck(t, over):
    tc = np.asarray(t, float) - T0
    if over == "ice":
        return 611.15 * np.exp((23.036 - tc / 333.7) * tc / (279.82 + tc))
    return 611.21 * np.exp((18.678 - tc / 234.5) * tc / (257.14 + tc))


def close(a, b, rtol=1e-9, atol=0.0):
    return np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


@st.composite
def points(draw):
    n = draw(st.integers(1, 12))
    return dict(
        t=[round(T0 + draw(gen.num(-45, 45)), 2) for _ in range(n)],
        rh=[draw(st.one_of(st.just(100.0), gen.num(1, 100, 1))) for _ in range(n)],
        z=[draw(gen.num(-400, 8800, 0)) for _ in range(n)],
        ws=[draw(gen.num(0.1, 40, 1)) for _ in range(n)],
        wd=[draw(st.one_of(st.sampled_from([0.0, 90.0, 180.0, 270.0, 359.9]), gen.num(0, 359.9, 1)))
            for _ in range(n)],
        shape=draw(st.sampled_from(["1d", "2d"])),
        thr=round(T0 + draw(gen.num(-2, 3, 1)), 2),
        rng=draw(st.sampled_from([0.0, 0.5, 1.0, 2.0, 5.0])),
        lr=draw(gen.num(-0.01, 0.01, 4)),
        lrd=draw(gen.num(-0.008, 0.002, 4)),
    )


def thermodynamics(case, rec):
    def arr(k):
        a = np.array(case[k], float)
        return a.reshape(1, -1) if case["shape"] == "2d" else a

    t, rh, z, ws, wd = (arr(k) for k in ("t", "rh", "z", "ws", "wd"))
    originals = [a.copy() for a in (t, rh, z, ws, wd)]

    # pressure
    p = meteo.atmospheric_pressure(z)
    check(np.all(np.isfinite(p)) and np.all(p > 0), f"pressure {p}")
    check(close(meteo.pressure_to_altitude(p), z, 1e-6, 1e-3), "altitude(pressure(z)) != z")
    i = np.argsort(z.ravel(), kind="stable")
    dz = np.diff(z.ravel()[i])
    check(np.all(np.diff(p.ravel()[i])[dz > 0] < 0), "pressure does not decrease with height")
    isa = 101325 * (1 - 2.25577e-5 * z) ** 5.25588
    # (dry-adiabatic atmosphere, i.e. slightly below the standard atmosphere higher up)
    low = z <= 4000
    check(np.all(((p <= isa * 1.002) & (p >= isa * 0.97))[low]),
          f"pressure {p} implausible ({isa})")
    check(abs(float(meteo.atmospheric_pressure(0.0)) - 101325) < 1e-6, "sea level pressure")

    # saturation vapour pressure
    for over in (None, "water", "ice"):
        e = meteo.saturation_vapor_pressure(t, over)
        check(close(e, magnus(t, over), 1e-6), f"saturation vapour pressure over {over}: {e}")
    lim = t > T0 - 15
    check(close(meteo.saturation_vapor_pressure(t, "water")[lim], buck(t, "water")[lim], 0.02),
          "vapour pressure over water off by more than 2 %")
    cold = (t > T0 - 40) & (t <= T0)
    check(close(meteo.saturation_vapor_pressure(t, "ice")[cold], buck(t, "ice")[cold], 0.02),
          "vapour pressure over ice off by more than 2 %")

    es = meteo.saturation_vapor_pressure(t)
    e = meteo.vapor_pressure(t, rh)
    check(close(e, es * rh / 100), "vapour pressure is not RH times saturation")
    for over in ("water", "ice"):
        check(close(meteo.vapor_pressure(t, rh, over), magnus(t, over) * rh / 100, 1e-6),
              f"vapour pressure over {over}")

    # humidity measures
    q = meteo.specific_humidity(p, e)
    check(close(q * (p - 0.378 * e), 0.622 * e), "specific humidity")
    check(np.all((q > 0) & (q < 1)), f"specific humidity out of range {q}")
    ah = meteo.absolute_humidity(t, e)
    check(close(ah * 461.52 * t, e, 1e-4), "absolute humidity is not the ideal gas density")
    check(close(meteo.relative_humidity(t, ah), rh), "RH(absolute humidity(RH)) != RH")

    td = meteo.dew_point_temperature(t, rh)
    check(np.all(td <= t + 1e-9), f"dew point {td} above air temperature {t}")
    check(close(magnus(td, "water"), magnus(t, "water") * rh / 100, 1e-6),
          "saturation vapour pressure at the dew point is not the vapour pressure")
    check(close(meteo.relative_humidity_from_dew_point_temperature(t, td), rh, 1e-9),
          "RH(dew point(RH)) != RH")

    # psychrometry
    lv = meteo.latent_heat_of_vaporization(t)
    check(close(lv, 2.501e6 - 2361 * (t - T0), 1e-6), f"latent heat {lv}")
    cp = meteo.specific_heat_capacity_moist_air(q)
    check(close(cp, 1004.68506 * (1 + 0.84 * q), 1e-4), f"heat capacity {cp}")
    g = meteo.psychrometric_constant(p, cp, lv)
    check(close(g * 0.622 * lv, cp * p), "psychrometric constant")
    tw = meteo.wet_bulb_temperature(t, rh, e, g)
    check(np.all(np.isfinite(tw)), f"wet-bulb temperature {tw}")
    check(np.all(tw <= t + 0.02), f"wet-bulb temperature {tw} above air temperature {t}")
    # the residual of the psychrometric equation corresponds to a temperature error < 0.03 K
    res = e - (magnus(tw) - g * (t - tw))
    slope = (magnus(tw + 0.01) - magnus(tw - 0.01)) / 0.02
    slope = np.where(np.abs(tw - T0) < 0.02, 50.0, slope)
    check(np.all(np.abs(res) <= 0.03 * (slope + g) + 0.1),
          f"wet-bulb temperature {tw} does not solve the psychrometric equation ({res})")
    # every pixel is converged, no matter how many others there are
    many = [np.concatenate([np.full(400, np.ravel(v)[0]), np.broadcast_to(v, t.shape).ravel()]) for v in (t, rh, e, g)]
    tm = meteo.wet_bulb_temperature(*many)[400:]
    check(np.allclose(tm, tw.ravel(), atol=0.01), f"wet-bulb temperature {tm} instead of {tw} if calculated together with 400 equal pixels")
    sat = rh == 100
    check(np.all(np.abs(tw - t)[sat] <= 0.02), "wet-bulb temperature of saturated air")

    rho = meteo.dry_air_density(t, p)
    check(close(rho * 287.058 * t, p, 1e-4), f"air density {rho}, expected {p / 287.058 / t}")

    # radiation-related
    pw = meteo.precipitable_water(t, e)
    check(close(pw, 46.5 * (e / 100) / t * 10), f"precipitable water {pw}")
    em = meteo.clear_sky_emissivity(pw)
    w = pw / 10
    check(close(em, 1 - (1 + w) * np.exp(-np.sqrt(1.2 + 3 * w)), 1e-6), f"emissivity {em}")
    check(np.all((em > 0) & (em < 1)), f"emissivity {em}")

    # clouds
    cf = meteo.cloud_fraction_from_humidity(t, rh, z, case["lr"], case["lrd"])
    check(np.all((cf >= 0) & (cf <= 1)), f"cloud fraction {cf}")
    z700 = float(meteo.pressure_to_altitude(70000))
    with np.errstate(all="ignore"):
        t7 = t + case["lr"] * (z700 - z)
        td7 = td + case["lrd"] * (z700 - z)
        rh7 = 100 * magnus(td7) / magnus(t7)
        exp = np.clip(0.832 * np.exp((rh7 - 100) / 41.6), 0, 1)
    # (the vapour pressure curve has a small jump at 0 degC)
    amb = (np.abs(t7 - T0) < 1e-6) | (np.abs(td7 - T0) < 1e-6)
    check(close(cf[~amb], exp[~amb], 1e-6, 1e-9), f"cloud fraction {cf}, expected {exp}")
    fac = meteo.cloud_factor_from_cloud_fraction(cf)
    check(np.all((fac >= 0) & (fac <= 1)), f"cloud factor {fac}")
    check(close(fac, 1 - 0.233 * cf - 0.415 * cf**2, 1e-9), "cloud factor")
    check(close(meteo.cloud_fraction_from_cloud_factor(fac), cf, 1e-6, 1e-6),
          "fraction(factor(cloud fraction)) != cloud fraction")

    # precipitation phase
    sf = meteo.precipitation_phase(t, case["thr"], case["rng"])
    r = case["rng"]
    if r == 0:
        exp = np.where(t < case["thr"], 1.0, 0.0)
    else:
        exp = np.clip((case["thr"] + r / 2 - t) / r, 0, 1)
    check(close(sf, exp, 0, 1e-9), f"snowfall fraction {sf}, expected {exp}")

    # wind
    u, v = meteo.wind_to_uv(ws, wd)
    check(close(u**2 + v**2, ws**2), "wind components do not have the wind speed")
    check(close(u, -ws * np.sin(np.deg2rad(wd)), 1e-9, 1e-9), "zonal wind")
    check(close(v, -ws * np.cos(np.deg2rad(wd)), 1e-9, 1e-9), "meridional wind")
    ws2, wd2 = meteo.wind_from_uv(u, v)
    dwd = (wd2 - wd + 180) % 360 - 180
    check(close(ws2, ws) and np.all(np.abs(dwd) < 1e-6), f"wind round trip {ws2} {wd2} vs {ws} {wd}")
    check(np.all((wd2 >= 0) & (wd2 <= 360)), f"wind direction {wd2}")
    a = meteo.log_wind_profile(ws, 10.0, 2.0, 0.01)
    check(close(meteo.log_wind_profile(a, 2.0, 10.0, 0.01), ws), "log profile up and down")
    check(close(meteo.log_wind_profile(ws, 10.0, 10.0, 0.01), ws), "log profile at same height")
    check(np.all(a < ws), "wind does not decrease towards the ground")
    check(close(a, ws * np.log(200) / np.log(1000)), "log profile")

    for a, b in zip((t, rh, z, ws, wd), originals):
        check(np.array_equal(a, b), "input array modified")
    rec.nt(len(case["t"]) >= 3 and bool(np.any(rh < 99)))
    rec.label(case["shape"])


sub("C18", "functions", points, quick=4000, thorough=80000,
    rule="arrays of temperature/humidity/elevation/wind values; non-trivial = at least three "
    "points, one of them unsaturated")(thermodynamics)


@st.composite
def state_case(draw):
    rows, cols = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    return dict(
        start=draw(gen.start_dates(hours=(0, 6, 12))),
        timestep=draw(st.sampled_from(["h", "3h", "24h"])),
        nsteps=draw(st.integers(1, 4)),
        res=100,
        dem=draw(gen.dem(rows, cols, lo=0, relief=3000)),
        columns=draw(st.lists(gen.winter_column(nmax=2), min_size=1, max_size=6)),
        config=dict(snow=dict(model=draw(st.sampled_from(["multilayer", "cryolayers"])))),
    )


def state_fields(case, rec):
    with synth.column_model(case) as model:
        roi = model.grid.roi
        dem = np.array(case["dem"])[roi]
        seen = set()
        for i in range(case["nsteps"]):
            model.run_single()
            m = model.state.meteo
            d = model.date
            cols = case["columns"]
            idx = (np.arange(roi.size).reshape(roi.shape) % len(cols))[roi]
            t = np.array([synth.expand(c, case["nsteps"], "t")[i] for c in cols])[idx]
            rh = np.array([synth.expand(c, case["nsteps"], "rh")[i] for c in cols])[idx]

            def eq(name, exp, rtol=1e-9, m=m, d=d, roi=roi):
                got = m[name][roi]
                check(close(got, exp, rtol), f"{d}: {name} {got}, expected {exp}")
                return got

            p = eq("atmos_press", meteo.atmospheric_pressure(dem))
            eq("sat_vap_press", magnus(t), 1e-6)
            e = eq("vap_press", magnus(t) * rh / 100, 1e-6)
            q = eq("spec_hum", 0.622 * e / (p - 0.378 * e))
            cp = eq("spec_heat_cap_moist_air", 1004.68506 * (1 + 0.84 * q), 1e-4)
            lv = eq("lat_heat_vap", 2.501e6 - 2361 * (t - T0), 1e-6)
            g = eq("psych_const", cp * p / (0.622 * lv))
            eq("dew_point_temp", meteo.dew_point_temperature(t, rh))
            eq("precipitable_water", 46.5 * (e / 100) / t * 10, 1e-6)
            eq("dry_air_density", p / (287.058 * t), 1e-4)
            tw = m.wet_bulb_temp[roi]
            res = e - (magnus(tw) - g * (t - tw))
            check(np.all(np.abs(res) <= 0.03 * (160 + g)) and np.all(tw <= t + 0.02),
                  f"{d}: wet-bulb temperature {tw} (air {t}, residual {res})")
            seen.update(np.sign(t - T0).tolist())
        rec.nt(len(seen) > 1)


sub("C18", "state", state_case, quick=120, thorough=3000,
    rule="model runs with generated weather; non-trivial = temperatures on both sides of 0 degC")(
    state_fields)
