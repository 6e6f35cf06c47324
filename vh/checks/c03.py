"""C03: canopy snow interception conserves mass and sub-canopy meteorology stays consistent."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gen, lc, synth
from ..core import check, sub

T0 = 273.15


@st.composite
def canopy_case(draw, gaps=False):
    rows = draw(st.integers(2, 4))
    cols = draw(st.integers(2, 4))
    start = draw(gen.start_dates(hours=(0, 0, 6)))
    doy = pd.Timestamp(start).dayofyear
    timestep = draw(st.sampled_from(["h", "3h", "6h", "24h"]))
    columns = draw(st.lists(gen.winter_column(nseg=(1, 5), nmax=10), min_size=1, max_size=4))
    case = dict(
        start=start,
        timestep=timestep,
        nsteps=draw(st.integers(4, 40)),
        res=100,
        dem=draw(gen.dem(rows, cols)),
        columns=columns,
        reset=draw(st.booleans()),
    )
    if gaps:
        n = draw(st.integers(1, 6))
        gap = dict(n=n, t=None, p=0.0, rh=None, u=None, cf=0.5, cl=0.5)
        for c in columns:
            pos = draw(st.integers(0, len(c)))
            c.insert(pos, dict(gap))
    classes = {
        "1": draw(lc.forest_class(doy)),
        "2": draw(lc.forest_class(doy)),
        "3": dict(plant_date=1, growth_stage_lengths=[10, 20, 30, 40]),
    }
    case["grids"] = dict(
        lc=[[float(draw(st.sampled_from([1, 1, 2, 2, 3, 0]))) for _ in range(cols)]
            for _ in range(rows)]
    )
    canopy = dict(enabled=True)
    if draw(st.booleans()):
        canopy.update(
            extinction_coefficient=draw(gen.num(0.1, 1)),
            temperature_scaling_coefficient=draw(gen.num(0, 1)),
            canopy_flow_index_coefficient=draw(gen.num(0.1, 1.5)),
            max_interception_storage_coefficient=draw(gen.num(0.5, 8, 1)),
            exposure_coefficient_coefficient=draw(st.sampled_from([0.001, 0.01, 0.1, 1.0])),
            degree_day_factor=draw(gen.num(0, 20, 1)),
            spherical_ice_particle_radius=draw(st.sampled_from([5e-4, 2e-4, 1e-3])),
            kinematic_air_viscosity=draw(st.sampled_from([1.3e-5, 1e-4])),
        )
    case["config"] = dict(
        canopy=canopy,
        land_cover=dict(classes=classes),
        snow=dict(model=draw(st.sampled_from(["multilayer", "cryolayers"]))),
    )
    return case


PARAMS = dict(
    extinction_coefficient=0.71,
    temperature_scaling_coefficient=0.8,
    canopy_flow_index_coefficient=0.9,
    max_interception_storage_coefficient=4.4,
    degree_day_factor=5.0,
    exposure_coefficient_coefficient=0.01,
    spherical_ice_particle_radius=5e-4,
    kinematic_air_viscosity=1.3e-5,
)


def loss_rate(par, T, rh, u, e_s, sw, albedo, vapor):
    """
    Relative mass loss rate (s-1) of ice spheres in the canopy after Liston and Elder (2006).
    vapor: factor for the saturation vapor density (see DESIGN.md).
    """
    r = par["spherical_ice_particle_radius"]
    re = np.clip(2 * r * u / par["kinematic_air_viscosity"], 0.7, 10)
    nu = 1.79 + 0.606 * np.sqrt(re)
    rho = vapor * e_s / (461.52 * T)
    diff = 2.06e-5 * (T / 273) ** 1.75
    ls = 2.501e6 + 0.334e6
    om = (ls * 0.0180153 / (8.314462618 * T) - 1) / (0.025 * T * nu)
    absorbed = np.pi * r**2 * (1 - albedo) * sw
    dm = (2 * np.pi * r * (rh / 100 - 1) - absorbed * om) / (ls * om + 1 / (diff * rho * nu))
    return np.nan_to_num(dm / (4 / 3 * np.pi * 917 * r**3))


def canopy_balance(case, rec):
    case = dict(case, config=lc.with_int_classes(case["config"]))
    par = {**PARAMS, **case["config"]["canopy"]}
    twin_case = dict(case, config={**case["config"], "canopy": dict(enabled=False)})
    ov = dict(reset_state_variables=case["reset"])
    intercepted = lost = warmed = gap_seen = False

    with synth.column_model(case, ov) as model, synth.column_model(twin_case, ov) as twin:
        roi = model.grid.roi
        classes = case["config"]["land_cover"]["classes"]
        lcg = model.state.land_cover.land_cover
        forest = roi & np.isin(lcg, [k for k, v in classes.items() if v.get("is_forest")])
        openp = roi & ~forest
        load0 = model.state.snow.canopy_intercepted_load[forest].copy()
        check(np.all(load0 == 0), "initial canopy load is not 0")
        history = []
        ndays = int(round(86400 / model.timestep))

        for _ in range(case["nsteps"]):
            albedo0 = model.state.surface.albedo.copy()
            model.run_single()
            twin.run_single()
            d = model.date
            s, m, t = model.state.snow, model.state.meteo, twin.state.meteo

            # the canopy does not change the weather of pixels outside of forests
            for v in ("temp", "rel_hum", "wind_speed", "snowfall", "rainfall", "precip"):
                check(
                    np.array_equal(m[v][openp], t[v][openp], equal_nan=True),
                    f"{d}: {v} modified outside of the forest: {m[v][openp]} vs {t[v][openp]}",
                )
            check(np.array_equal(m.sw_in[openp], m.top_canopy_sw_in[openp], equal_nan=True),
                  f"{d}: shortwave radiation modified outside of the forest")
            if not forest.any():
                continue

            f = forest
            load, inter, sub_, melt = (
                s[v][f] for v in ("canopy_intercepted_load", "canopy_intercepted_snowfall",
                                  "canopy_sublimation", "canopy_melt")
            )
            for n, v in dict(load=load, intercepted=inter, sublimation=sub_, melt=melt).items():
                check(np.all(np.isfinite(v)), f"{d}: canopy {n} not finite: {v}")
                check(np.all(v >= -1e-9), f"{d}: canopy {n} negative: {v}")

            lai_ = model.state.land_cover.lai_eff[f]
            store = par["max_interception_storage_coefficient"] * lai_
            caught = 0.7 * (store - load0) * (1 - np.exp(-np.nan_to_num(t.snowfall[f]) / store))
            check(np.allclose(inter, np.maximum(caught, 0), rtol=1e-9, atol=1e-12),
                  f"{d}: intercepted snow {inter}, expected {caught}")
            filled = load0 + np.maximum(caught, 0)
            with np.errstate(all="ignore"):
                exposure = par["exposure_coefficient_coefficient"] * (filled / store) ** -0.4
                both = [
                    np.clip(np.nan_to_num(-exposure * filled * model.timestep) * loss_rate(
                        par, m.temp[f], m.rel_hum[f], m.wind_speed[f], m.sat_vap_press[f],
                        m.top_canopy_sw_in[f], albedo0[f], k), 0, filled) for k in (0.622, 1.0)]
            check(any(np.allclose(sub_, x, rtol=1e-3, atol=1e-9) for x in both),
                  f"{d}: canopy sublimation {sub_}, expected {both[0]}")

            resid = load - (load0 + inter - sub_ - melt)
            check(np.all(np.abs(resid) < 1e-9), f"{d}: canopy mass balance residual {resid}")

            snow_above, rain_above = t.snowfall[f], t.rainfall[f]
            ground = snow_above - inter + melt
            check(np.all(inter <= snow_above + 1e-12), f"{d}: more intercepted than snowfall")
            check(np.allclose(m.snowfall[f], ground, rtol=0, atol=1e-9),
                  f"{d}: snowfall below canopy {m.snowfall[f]}, expected {ground}")
            check(np.array_equal(m.rainfall[f], rain_above), f"{d}: rain changed by the canopy")
            check(np.allclose(m.precip[f], m.snowfall[f] + m.rainfall[f], rtol=0, atol=1e-9),
                  f"{d}: precipitation is not the sum of snow and rain")

            lai = model.state.land_cover.lai_eff[f]
            cap = par["max_interception_storage_coefficient"] * lai
            check(np.all(load <= np.maximum(cap, load0) + 1e-9),
                  f"{d}: load {load} exceeds the storage capacity {cap}")

            # above-canopy values are what the weather was
            for v in ("temp", "rel_hum", "wind_speed"):
                check(np.array_equal(m["top_canopy_" + v][f], t[v][f], equal_nan=True),
                      f"{d}: above-canopy {v} is not the input weather")
            for v in ("sw_in", "wind_speed"):
                a, b = m[v][f], m["top_canopy_" + v][f]
                check(np.all((a <= b + 1e-12) | np.isnan(b)), f"{d}: {v} enhanced below canopy")
            sw = m.top_canopy_sw_in[f] * np.exp(-par["extinction_coefficient"] * lai)
            check(np.allclose(m.sw_in[f], sw, rtol=1e-9, atol=1e-9, equal_nan=True),
                  f"{d}: sub-canopy radiation {m.sw_in[f]}, expected {sw}")
            u = t.wind_speed[f] * np.exp(-0.4 * par["canopy_flow_index_coefficient"] * lai)
            check(np.allclose(m.wind_speed[f], u, rtol=1e-9, equal_nan=True),
                  f"{d}: sub-canopy wind speed {m.wind_speed[f]}, expected {u}")

            frac = np.clip(0.55 + 0.29 * np.log(lai), 0, 1)
            rh = np.minimum(t.rel_hum[f] * (1 + 0.1 * frac), 100)
            check(np.allclose(m.rel_hum[f], rh, rtol=1e-9, equal_nan=True),
                  f"{d}: sub-canopy humidity {m.rel_hum[f]}, expected {rh}")
            history = [*history, t.temp[f].copy()][-max(ndays, 1):]
            with np.errstate(all="ignore"):
                tm = np.nanmean(np.array(history), axis=0)
            ta = t.temp[f]
            dt = np.clip((tm - T0) / 3, -2, 2)
            tc = ta - frac * (
                ta - (par["temperature_scaling_coefficient"] * (ta - tm) + tm - dt)
            )
            check(np.allclose(m.temp[f], tc, rtol=0, atol=1e-6, equal_nan=True),
                  f"{d}: sub-canopy temperature {m.temp[f]}, expected {tc}")
            lw = (1 - frac) * m.top_canopy_lw_in[f] + frac * 5.670374419e-8 * m.temp[f] ** 4
            check(np.allclose(m.lw_in[f], lw, rtol=1e-4, equal_nan=True),
                  f"{d}: sub-canopy longwave {m.lw_in[f]}, expected {lw}")

            # unloading by melt: degree-day melt, limited by what is there
            tdd = np.nan_to_num(m.temp[f] - T0).clip(min=0)
            pot = par["degree_day_factor"] * tdd * model.timestep / 86400
            avail = load0 + inter - sub_
            check(np.allclose(melt, np.minimum(pot, avail), rtol=1e-9, atol=1e-9),
                  f"{d}: canopy melt {melt}, potential {pot}, available {avail}")

            intercepted |= bool(np.any(inter > 0.1))
            lost |= bool(np.any(sub_ > 1e-6))
            warmed |= bool(np.any(melt > 0.01))
            gap_seen |= bool(np.any(np.isnan(ta)))
            load0 = load.copy()

    rec.nt(intercepted and (lost or warmed))
    for n, v in dict(intercepted=intercepted, sublimated=lost, melted=warmed, gap=gap_seen).items():
        if v:
            rec.label(n)


RULE = (
    "full model runs with forest/open land cover, LAI phenology, generated weather; non-trivial = "
    "snow was intercepted and later sublimated or melted from the canopy"
)
sub("C03", "balance", canopy_case, quick=240, thorough=6000, rule=RULE)(canopy_balance)
sub("C03", "gaps", lambda: canopy_case(gaps=True), quick=120, thorough=3000,
    rule=RULE + "; with gaps in the temperature/humidity/wind data")(canopy_balance)
