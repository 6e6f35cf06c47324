"""C04: evapotranspiration follows the FAO-56 water balance within its bounds."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gen, lc, synth
from ..core import check, sub

T0 = 273.15
SIGMA = 5.670374419e-8
LV = 2.501e6
# FAO-56 table 19 (means of the ranges): field capacity, wilting point, readily evaporable water,
# and the adjustment of the depletion fraction by texture
SOIL = {
    1: (0.12, 0.045, 4.5, 1.10),
    2: (0.15, 0.065, 6.0, 1.075),
    3: (0.23, 0.11, 8.0, 1.05),
    4: (0.25, 0.12, 9.0, 1.025),
    5: (0.29, 0.15, 9.5, 1.0),
    6: (0.32, 0.17, 9.5, 0.975),
    7: (0.335, 0.205, 9.5, 0.95),
    8: (0.36, 0.23, 10.0, 0.925),
    9: (0.36, 0.22, 10.0, 0.90),
}
KINDS = ["single", "dual", "dual", "sealed", "water"]


@st.composite
def et_case(draw, gaps=False):
    rows = draw(st.integers(2, 3))
    cols = draw(st.integers(2, 4))
    start = draw(gen.start_dates(hours=(0, 0, 6)))
    doy = pd.Timestamp(start).dayofyear
    seg = gen.segment(nmax=8, tmin=-8, tmax=32, pmax=25)
    cols_w = draw(st.lists(st.lists(seg, min_size=1, max_size=5), min_size=1, max_size=4))
    if gaps:
        for c in cols_w:
            c.insert(draw(st.integers(0, len(c))),
                     dict(n=draw(st.integers(1, 4)), t=None, p=0.0, rh=None, u=None, cf=0.5, cl=0.5))
    classes = {
        str(20 + i): draw(lc.crop_class(doy, k)) for i, k in enumerate(KINDS)
    }
    case = dict(
        start=start,
        timestep=draw(st.sampled_from(["h", "3h", "24h"])),
        nsteps=draw(st.integers(3, 40)),
        res=100,
        dem=draw(gen.dem(rows, cols, lo=300)),
        columns=cols_w,
        grids=dict(
            lc=[[float(draw(st.sampled_from([20, 21, 22, 23, 24, 21, 0])))
                 for _ in range(cols)] for _ in range(rows)],
            soil=[[float(draw(st.integers(1, 9))) for _ in range(cols)] for _ in range(rows)],
        ),
        config=dict(
            snow=dict(model=draw(st.sampled_from(["multilayer", "cryolayers"]))),
            land_cover=dict(classes=classes),
            evapotranspiration=dict(
                enabled=True,
                mean_wind_speed=draw(gen.num(0.5, 7, 1)),
                mean_min_humidity=draw(gen.num(10, 90, 0)),
                surface_soil_layer_evaporation_depth=draw(st.sampled_from([0.1, 0.125, 0.15])),
            ),
        ),
        reset=draw(st.booleans()),
    )
    return case


def clim_corr(u, rh, h):
    u, rh, h = min(max(u, 1), 6), min(max(rh, 20), 80), min(max(h, 0.1), 10)
    return (0.04 * (u - 2) - 0.004 * (rh - 45)) * (h / 3) ** 0.3


def near(a, b, rtol=1e-6, atol=1e-8):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def et_reference(case, rec):
    case = dict(case, config=lc.with_int_classes(case["config"]))
    ecfg = case["config"]["evapotranspiration"]
    classes = case["config"]["land_cover"]["classes"]
    k_out = 0.175
    stress = perc = sealed_evap = evap = snowy = False

    with synth.column_model(case, dict(reset_state_variables=case["reset"])) as model:
        lcg = model.state.land_cover.land_cover
        et = model.state.evapotranspiration
        lat = math.radians(float(model.grid.center_lat))
        px = [tuple(p) for p in np.argwhere(model.grid.roi)]
        st_ = {}
        for p in px:
            st_[p] = dict(De=0.0, Dr=0.0, si=0.0)
        hrs = model.timestep / 3600.0

        for _ in range(case["nsteps"]):
            model.run_single()
            d = model.date
            m = model.state.meteo
            swe = model.state.snow.swe
            sun_up = bool(model.sun_params["sun_over_horizon"])
            decl = math.radians(float(model.sun_params["declination_angle"]))

            for p in px:
                cls = int(lcg[p])
                if cls not in classes:
                    continue
                par = classes[cls]
                z = st_[p]
                where = f"{d} {p} class {cls} {par}"

                def cmp(name, exp, rtol=1e-6, atol=1e-8, where=where, p=p):
                    got = float(et[name][p])
                    check(near(got, exp, rtol, atol), f"{where}: {name} is {got}, expected {exp}")

                sealed = par.get("is_sealed", False)
                alb, emi = (0.4, 0.92) if sealed else (0.23, 0.985)
                ta = float(m.top_canopy_temp[p])
                rn = (1 - alb) * float(m.top_canopy_sw_in[p]) + float(m.top_canopy_lw_in[p]) - (
                    emi * SIGMA * ta**4
                )
                g = (0.1 if sun_up else 0.5) * rn
                t = ta - T0
                slope = 4098 * 0.6108 * math.exp(17.27 * t / (t + 237.3)) / (t + 237.3) ** 2
                gam = float(m.psych_const[p]) * 1e-3
                vpd = (float(m.sat_vap_press[p]) - float(m.vap_press[p])) * 1e-3
                u2 = float(m.top_canopy_wind_speed[p]) * math.log(2 / 0.03) / math.log(10 / 0.03)
                et0 = (
                    0.408 * slope * (rn - g) * 3600e-6 + gam * 37 / (t + 273) * u2 * vpd
                ) / (slope + gam * (1 + 0.34 * u2))
                et0 = max(et0, 0.0) if not math.isnan(et0) else et0
                cmp("et_ref", et0 * hrs, rtol=1e-4, atol=1e-5)
                et0s = float(et.et_ref[p])
                et0s = 0.0 if math.isnan(et0s) else et0s

                rain = float(m.rainfall[p])
                rain = 0.0 if math.isnan(rain) else rain
                snow = swe[p] > 0
                snowy |= bool(snow)

                if sealed:
                    if snow:
                        exp_e = exp_dp = 0.0
                    elif rain > 0:
                        exp_e = 0.0
                        exp_dp = max(z["si"] + rain - par["max_sealed_interception"], 0)
                        z["si"] += rain - exp_dp
                    else:
                        exp_dp = 0.0
                        h = par["max_height"]
                        zom = 0.123 * h
                        u = float(m.top_canopy_wind_speed[p])
                        ga = 0.0
                        if u > 0:
                            ga = 0.40**2 * u / (
                                math.log((10 - 2 / 3 * h) / zom)
                                * math.log((2 - 2 / 3 * h) / (0.1 * zom))
                            )
                        rho = float(m.atmos_press[p]) / (287.05 * 1.01 * ta)
                        cp = float(m.psych_const[p]) * 0.622 * LV / float(m.atmos_press[p])
                        sl = slope * 1e3
                        le = (sl * (rn - g) + rho * cp * vpd * 1e3 * ga) / (
                            sl + float(m.psych_const[p])
                        )
                        pot = max(le, 0) / LV * model.timestep if not math.isnan(le) else 0.0
                        exp_e = min(pot, z["si"])
                        got = float(et.evaporation[p])
                        # (constants may differ in the 4th digit)
                        check(near(got, exp_e, 1e-2, 1e-6),
                              f"{where}: sealed evaporation {got}, potential {pot}, stored {z['si']}")
                        exp_e = got
                        check(0 <= got <= z["si"] + 1e-9, f"{where}: evaporates more than stored")
                        z["si"] -= got
                        sealed_evap |= got > 0.01
                    cmp("evaporation", exp_e)
                    cmp("evapotranspiration", exp_e)
                    cmp("transpiration", 0.0)
                    cmp("deep_percolation", exp_dp)
                    cmp("sealed_interception", z["si"])
                    check(-1e-9 <= z["si"] <= par["max_sealed_interception"] + 1e-9,
                          f"{where}: interception {z['si']} out of bounds")
                    continue

                fc, wp, rew, adj = SOIL[int(et.soil_texture[p])]
                tew = 1000 * (fc - 0.5 * wp) * ecfg["surface_soil_layer_evaporation_depth"]
                taw = 1000 * (fc - wp) * par["rooting_depth"]
                raw = par["depletion_fraction"] * adj * taw
                k_ini, k_mid, k_end = par["crop_coefficients"]
                if par.get("is_sparse"):
                    f = par["sparse_vegetation_fraction"]
                    sinb = math.sin(lat) * math.sin(decl) + math.cos(lat) * math.cos(decl)
                    k_mid = k_out + (k_mid - k_out) * min(
                        1, 2 * f, (f / sinb) ** (1 / (1 + par["max_height"]))
                    )
                cc = clim_corr(ecfg["mean_wind_speed"], ecfg["mean_min_humidity"],
                               par["max_height"])
                if k_mid >= 0.45:
                    k_mid += cc
                if k_end >= 0.45:
                    k_end += cc
                day = d.dayofyear - par["plant_date"] + 1
                kc, stage = lc.stage_curve(day, lc.cycles_of(par), k_ini, k_mid, k_end, k_out)
                rec.label(f"stage_{stage}")
                water = par.get("is_water_body", False)
                snow = snow and not water
                # plant height follows the crop coefficient, and does not decrease with time
                height = par["max_height"]
                if par["scale_height"]:
                    lower = {None: 0.0, "ini": k_out / k_mid, "dev": k_ini / k_mid,
                             "mid": 1.0, "late": 1.0}[stage]
                    height *= max(kc / k_mid, lower)
                got_h = float(model.state.land_cover.plant_height[p])
                check(near(got_h, height), f"{where}: plant height {got_h}, expected {height}")

                if par["crop_coefficient_type"] == "single":
                    e = tr = math.nan
                    tot = 0.0 if snow else kc * et0s
                    cmp("crop_coeff", kc)
                else:
                    cmp("basal_crop_coeff", kc)
                    if snow:
                        e = tr = 0.0
                    else:
                        kc_max = max(1.2 + cc, kc + 0.05)
                        if par.get("is_sparse"):
                            fveg = par["sparse_vegetation_fraction"]
                        else:
                            fveg = (max(kc - k_out, 0.01) / (kc_max - k_out)) ** (1 + 0.5 * height)
                        few = min(1 - fveg, 1)
                        kr = 1.0 if z["De"] <= rew else (tew - z["De"]) / (tew - rew)
                        ke = min(kr * (kc_max - kc), few * kc_max)
                        e = ke * et0s
                        tr = kc * et0s
                        # surface soil layer: rain beyond the deficit percolates (eq. 77-79)
                        dpe = max(rain - z["De"], 0)
                        z["De"] = min(max(z["De"] - rain + e / few + dpe, 0), tew)
                        evap |= e > 0.05
                    tot = e + tr
                ks = math.nan
                if not water:
                    if not snow:
                        ks = min(max((taw - z["Dr"]) / (taw - raw), 0), 1)
                        if par["crop_coefficient_type"] == "single":
                            tot *= ks
                        else:
                            tr *= ks
                            tot = e + tr
                        cmp("water_stress_coeff", ks, atol=1e-6)
                        stress |= ks < 0.98
                    dp = max(rain - tot - z["Dr"], 0)
                    z["Dr"] = min(max(z["Dr"] - rain + tot + dp, 0), taw)
                    cmp("deep_percolation", dp, atol=1e-6)
                    cmp("cum_root_zone_depletion", z["Dr"], atol=1e-5)
                    perc |= dp > 0.1
                if par["crop_coefficient_type"] == "dual":
                    cmp("evaporation", e, atol=1e-6)
                    cmp("transpiration", tr, atol=1e-6)
                    cmp("cum_soil_surface_depletion", z["De"], atol=1e-5)
                    check(-1e-9 <= float(et.cum_soil_surface_depletion[p]) <= tew + 1e-9,
                          f"{where}: surface depletion out of bounds")
                cmp("evapotranspiration", tot, atol=1e-6)
                check(float(et.evapotranspiration[p]) >= 0, f"{where}: negative ET")
                # keep the reference in step with the accumulated rounding of the model
                if not water:
                    z["Dr"] = float(et.cum_root_zone_depletion[p])
                    check(-1e-9 <= z["Dr"] <= taw + 1e-9, f"{where}: depletion {z['Dr']}")
                if par["crop_coefficient_type"] == "dual":
                    z["De"] = float(et.cum_soil_surface_depletion[p])

    rec.nt((stress or perc) and (evap or sealed_evap))
    for n, v in dict(stress=stress, percolation=perc, sealed_evaporation=sealed_evap,
                     soil_evaporation=evap, snow=snowy).items():
        if v:
            rec.label(n)


RULE = (
    "model runs over generated land cover classes (single/dual/sparse/sealed/water, one or several "
    "growth cycles), soils and weather; non-trivial = soil or sealed evaporation occurred together "
    "with water stress or deep percolation"
)
sub("C04", "reference", et_case, quick=320, thorough=8000, rule=RULE)(et_reference)
sub("C04", "gaps", lambda: et_case(gaps=True), quick=96, thorough=2500,
    rule=RULE + "; with missing temperature/humidity/wind")(et_reference)
