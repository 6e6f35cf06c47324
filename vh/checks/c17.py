"""C17: surface energy balance, melt and sublimation."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, synth
from ..core import check, sub
from . import c01

T0 = 273.15
SIGMA = 5.670374419e-8
LF = 0.334e6
CP = 1004.68506


def es(T):
    t = np.asarray(T) - T0
    a, b, c = (np.where(t >= 0, w, i) for w, i in zip(WATER, ICE))
    return a * np.exp(b * t / (c + t))


WATER = (610.78, 17.08, 234.18)
ICE = (610.71, 22.44, 272.44)


def q_of(p, e):
    return 0.622 * e / (p - 0.378 * e)


@st.composite
def case_strategy(draw, model):
    case = draw(c01.snow_case(model, nsteps=(3, 24)))
    cfg = case["config"]
    cfg["meteo"]["measurement_height"] = dict(temperature=draw(st.sampled_from([1.5, 2, 3])), wind=draw(st.sampled_from([2, 10])))
    cfg["meteo"]["stability_adjustment_parameter"] = draw(st.sampled_from([1.0, 5.0]))
    cfg["meteo"]["radiation"] = dict(snow_emissivity=draw(st.sampled_from([0.9, 0.98, 0.99, 1.0])))
    cfg["snow"]["measurement_height_adjustment"] = draw(st.booleans())
    cfg["snow"]["roughness_length"] = draw(st.sampled_from([0.001, 0.01, 0.05]))
    cfg["soil"] = dict(init_temp=draw(gen.num(258, 290, 1)), albedo=draw(st.sampled_from([0.1, 0.15, 0.3])),
                       roughness_length=draw(st.sampled_from([0.02, 0.1])),
                       init_moisture_content=draw(st.sampled_from([0.5, 0.9, 0.1, 0.0])),
                       sand_fraction=draw(st.sampled_from([0.6, 0.1])), clay_fraction=draw(st.sampled_from([0.3, 0.05])),
                       saturated_soil_surface_conductance=draw(st.sampled_from([0.01, 0.1])))
    # sometimes weather which just holds the balance around the melting point
    if draw(st.booleans()):
        for col in case["columns"]:
            for seg in col[1:]:
                seg["t"] = round(T0 + draw(gen.num(-2, 4)), 2)
    return case


HOOK = ["snow.depth", "snow.area_fraction", "snow.albedo", "snow.ice_content", "snow.liquid_water_content",
        "snow.thickness", "snow.swe", "snow.melt", "soil.temp", "soil.therm_cond", "soil.thickness", "snow.temp",
        "snow.therm_cond", "soil.frac_unfrozen_moisture_content", "soil.vol_moisture_content_sat",
        "soil.vol_moisture_content_crit"]


class Obs:
    """Collects the states between the energy balance and the mass changes of a step."""

    def __init__(self, model):
        self.names = [n for n in HOOK if n.split(".")[1] in model.state[n.split(".")[0]]]
        if "cold_content" in model.state.snow:
            self.names.append("snow.cold_content")
        self.eb = self.sub = None
        hc, su = model.snow.heat_conduction, model.snow.sublimation

        def heat_conduction():
            self.eb = synth.snap(model, self.names)
            hc()

        def sublimation():
            self.sub = synth.snap(model, self.names)
            su()

        model.snow.heat_conduction = heat_conduction
        model.snow.sublimation = sublimation


def close(a, b, rtol=1e-7, atol=1e-7):
    return np.allclose(a, b, rtol=rtol, atol=atol)


def exchange_coeff(case, w, roi, Tair, Tsurf, wind):
    cfg = case["config"]
    zt, zu = cfg["meteo"]["measurement_height"]["temperature"], cfg["meteo"]["measurement_height"]["wind"]
    f = w["snow.area_fraction"][roi]
    z0 = cfg["snow"]["roughness_length"] ** f * cfg["soil"]["roughness_length"] ** (1 - f)
    zt = np.full(f.shape, float(zt))
    if cfg["snow"]["measurement_height_adjustment"]:
        zt = np.maximum(zt - w["snow.depth"][roi], 1.0)
    ch = 0.4**2 / (np.log(zu / z0) * np.log(zt / (0.1 * z0)))
    if cfg["meteo"]["stability_correction"]:
        b = cfg["meteo"]["stability_adjustment_parameter"]
        u = np.where(wind == 0, 0.5, wind)
        ri = 9.80665 * zu**2 * (Tair - Tsurf) / (zt * Tair * u**2)
        c = 3 * b**2 * 0.4**2 * np.sqrt(zu / z0) / np.log(zu / z0) ** 2
        rp = np.maximum(ri, 0)
        fh = np.where(ri >= 0, 1 / (1 + 3 * b * rp * np.sqrt(1 + b * rp)), 1 - 3 * b * ri / (1 + c * np.sqrt(np.maximum(-ri, 0))))
        ch = ch * fh
    return z0, ch


def radiation_checks(model, case, d):
    s, roi = model.state, model.grid.roi
    m = {k: s.meteo[k][roi] for k in ("sw_in", "sw_out", "lw_in", "lw_out", "net_radiation")}
    Ts, alb = s.surface.temp[roi], s.surface.albedo[roi]
    check(close(m["sw_out"], alb * m["sw_in"]), f"{d}: reflected radiation {m['sw_out']}, albedo {alb}")
    em = case["config"]["meteo"]["radiation"]["snow_emissivity"]
    check(close(m["lw_out"], em * SIGMA * Ts**4), f"{d}: outgoing longwave {m['lw_out']} at {Ts}")
    check(close(m["net_radiation"], m["sw_in"] - m["sw_out"] + m["lw_in"] - m["lw_out"]), f"{d}: net radiation")


def albedo_check(model, case, w, d):
    s, roi = model.state, model.grid.roi
    f = w["snow.area_fraction"][roi]
    soil = case["config"]["soil"]["albedo"]
    exp = np.where(f > 0, f * np.nan_to_num(w["snow.albedo"][roi]) + (1 - f) * soil, soil)
    check(close(s.surface.albedo[roi], exp), f"{d}: surface albedo {s.surface.albedo[roi]} instead of {exp}")


def flux_checks(model, d, where):
    """Bulk formulas from the reported weather and surface states; returns the parts."""
    s, roi = model.state, model.grid.roi
    m, sf = s.meteo, s.surface
    Ta, Ts, u = m.temp[roi], sf.temp[roi], m.wind_speed[roi]
    p = m.atmos_press[roi]
    rho = p / (287.058 * Ta)
    tr = rho * sf.turbulent_exchange_coeff[roi] * u
    H = CP * tr * (Ta - Ts)
    check(close(sf.sens_heat_flux[roi][where], H[where], atol=1e-6),
          f"{d}: sensible heat flux {sf.sens_heat_flux[roi][where]} instead of {H[where]}")
    E = sf.moisture_availability[roi] * tr * (q_of(p, es(Ta) * m.rel_hum[roi] / 100) - q_of(p, es(Ts)))
    check(close(sf.moisture_flux[roi][where], E[where], rtol=1e-6, atol=1e-12),
          f"{d}: moisture flux {sf.moisture_flux[roi][where]} instead of {E[where]}")
    L = sf.lat_heat[roi]
    check(close(sf.lat_heat_flux[roi][where], (L * E)[where], rtol=1e-6, atol=1e-6), f"{d}: latent heat flux")
    A = (4180 * (Ta - Ts) * m.rainfall[roi] + 2100 * (m.wet_bulb_temp[roi] - Ts) * m.snowfall[roi]) / model.timestep
    check(close(sf.advective_heat_flux[roi][where], A[where], rtol=1e-6, atol=1e-6), f"{d}: advective heat flux")
    lv = m.lat_heat_vap[roi]
    check(np.all((np.abs(L - lv) < 1) | (np.abs(L - lv - LF) < 1)), f"{d}: latent heat {L}")
    return dict(H=sf.sens_heat_flux[roi], E=sf.moisture_flux[roi], LE=sf.lat_heat_flux[roi],
                A=sf.advective_heat_flux[roi], tr=tr, p=p)


def sublimation_check(model, obs, d, eligible):
    s, roi = model.state, model.grid.roi
    ice = obs.sub["snow.ice_content"][:, roi].sum(axis=0)
    pot = -np.nan_to_num(s.surface.moisture_flux[roi]) * model.timestep
    exp = np.where(eligible, np.minimum(pot, ice), 0.0)
    check(close(s.snow.sublimation[roi], exp, atol=1e-9), f"{d}: sublimation {s.snow.sublimation[roi]} instead of {exp}")


def multilayer(case, rec):
    melting = subl = False
    with synth.column_model(case, dict(reset_state_variables=case["reset"])) as model:
        s, roi = model.state, model.grid.roi
        obs = Obs(model)
        for _ in range(case["nsteps"]):
            Ts0 = s.surface.temp[roi].copy()
            model.run_single()
            d, w = model.date, obs.eb
            m, sf = s.meteo, s.surface
            Ta, u, Ts = m.temp[roi], m.wind_speed[roi], sf.temp[roi]
            radiation_checks(model, case, d)
            albedo_check(model, case, w, d)
            z0, ch = exchange_coeff(case, w, roi, Ta, Ts0, u)
            check(close(sf.roughness_length[roi], z0), f"{d}: roughness length")
            check(close(sf.turbulent_exchange_coeff[roi], ch, atol=1e-10),
                  f"{d}: exchange coefficient {sf.turbulent_exchange_coeff[roi]} instead of {ch}")
            f = flux_checks(model, d, np.ones(Ta.shape, bool))
            # moisture availability
            g = sf.conductance[roi]
            so = case["config"]["soil"]
            exp = so["saturated_soil_surface_conductance"] * np.maximum(
                (w["soil.frac_unfrozen_moisture_content"][0, roi] * w["soil.vol_moisture_content_sat"][roi]
                 / w["soil.vol_moisture_content_crit"][roi]) ** 2, 1)
            check(close(g, exp, atol=1e-12), f"{d}: surface conductance {g} instead of {exp}")
            q = m.spec_hum[roi]
            q0 = q_of(f["p"], es(Ts0))
            exp = np.where((w["snow.swe"][roi] > 0) | (q0 < q), 1.0, g / (g + ch * u))
            sure = (np.abs(q0 - q) > 1e-9)
            check(close(sf.moisture_availability[roi][sure], exp[sure]), f"{d}: moisture availability")

            ice = w["snow.ice_content"][:, roi].sum(axis=0)
            snowy = w["snow.ice_content"][0, roi] > 0
            L = m.lat_heat_vap[roi] + np.where(snowy | (Ts < T0), LF, 0)
            check(close(sf.lat_heat[roi], L), f"{d}: latent heat")

            # surface layer (harmonic mean of snow and soil down to the middle of the surface layer)
            ds, dg = w["snow.thickness"][0, roi], w["soil.thickness"][0, roi]
            ks, kg = w["snow.therm_cond"][0, roi], w["soil.therm_cond"][0, roi]
            thick = np.maximum(ds, dg)
            k = np.where(ds <= dg / 2, dg / (2 * ds / ks + (dg - 2 * ds) / kg), ks)
            tl = np.where(ds > dg, w["snow.temp"][0, roi],
                          w["soil.temp"][0, roi] + (w["snow.temp"][0, roi] - w["soil.temp"][0, roi]) * ds / dg)
            check(close(sf.heat_flux[roi], 2 * k * (Ts - tl) / thick, atol=1e-6),
                  f"{d}: ground heat flux {sf.heat_flux[roi]} instead of {2 * k * (Ts - tl) / thick}")

            # linearised energy balance without melt
            alb, em = sf.albedo[roi], case["config"]["meteo"]["radiation"]["snow_emissivity"]
            L0 = m.lat_heat_vap[roi] + np.where(snowy | (Ts0 < T0), LF, 0)
            av = sf.moisture_availability[roi]
            dq = L0 * q0 / (461.52 * Ts0**2)
            rain, snow = m.rainfall[roi], m.snowfall[roi]

            def surplus(T, qs, Lh):
                rn = (1 - alb) * m.sw_in[roi] + m.lw_in[roi] - em * SIGMA * T**4
                adv = (4180 * (Ta - T) * rain + 2100 * (m.wet_bulb_temp[roi] - T) * snow) / model.timestep
                return rn + CP * f["tr"] * (Ta - T) + Lh * av * f["tr"] * (q - qs) + adv - 2 * k * (T - tl) / thick

            den = (CP + L0 * av * dq) * f["tr"] + 2 * k / thick + 4 * SIGMA * Ts0**3
            e0 = surplus(Ts0, q0, L0)
            dT = e0 / den
            cold = ~(snowy & (Ts0 + dT > T0))
            check(close(Ts[cold], (Ts0 + dT)[cold], rtol=1e-7, atol=1e-5),
                  f"{d}: surface temperature {Ts[cold]} instead of {(Ts0 + dT)[cold]}")
            melt = w["snow.melt"][roi]
            edge = np.abs(Ts0 + dT - T0) < 1e-6
            check(np.all(melt[cold & ~edge] == 0), f"{d}: melt {melt[cold]} of cold snow")
            # with melt: either everything melts ...
            dT2 = (e0 - LF * ice / model.timestep) / den
            full = ~cold & (Ts0 + dT2 >= T0)
            edge |= np.abs(Ts0 + dT2 - T0) < 1e-6
            q_ = full & ~edge
            check(close(Ts[q_], (Ts0 + dT2)[q_], atol=1e-5) and close(melt[q_], ice[q_]), f"{d}: complete melt")
            # ... or the surface stays at the melting point
            q_ = ~cold & ~full & ~edge
            if q_.any():
                eT = surplus(np.full(Ts.shape, T0), q_of(f["p"], es(T0)), m.lat_heat_vap[roi] + LF)
                check(np.all(Ts[q_] == T0), f"{d}: melting surface at {Ts[q_]}")
                exp = np.maximum(eT / LF * model.timestep, 0)
                check(close(melt[q_], exp[q_], atol=1e-6), f"{d}: melt {melt[q_]} instead of {exp[q_]}")
                melting = True
            swe = s.snow.swe[roi]
            check(np.all(Ts[swe > 1e-3] <= T0 + 1e-9), f"{d}: snow surface at {Ts[swe > 1e-3]}")
            check(np.all(s.snow.melt[roi] <= ice + 1e-9) and np.all(s.snow.melt[roi] >= 0), f"{d}: melt amount")
            i1 = obs.sub["snow.ice_content"][:, roi]
            check(close(ice - i1.sum(axis=0), s.snow.melt[roi], atol=1e-8), f"{d}: melt is not the loss of ice")
            # (layers which have become warmer than the melting point melt as well)
            check(np.all(s.snow.melt[roi] >= np.minimum(melt, ice) - 1e-7), f"{d}: melt reduced")
            sublimation_check(model, obs, d, (i1[0] > 0) | (Ts < T0))
            subl |= bool(np.any(s.snow.sublimation[roi] > 1e-3))
    rec.label(*(["melt"] if melting else []), *(["sublimation"] if subl else []))
    rec.nt(melting)


sub("C17", "multilayer", lambda: case_strategy("multilayer"), quick=240, thorough=6000, budget=30,
    rule="partial melt of a snow cover occurred")(multilayer)


def cryolayers(case, rec):
    """Energy balance and temperature index melt of the cryo layer model."""
    method = case["config"]["snow"]["melt"]["method"]
    mc = case["config"]["snow"]["melt"]
    cc = case["config"]["snow"]["cryolayers"]
    melting = freezing = False
    with synth.column_model(case, dict(reset_state_variables=case["reset"])) as model:
        s, roi = model.state, model.grid.roi
        obs = Obs(model)
        for _ in range(case["nsteps"]):
            cold0 = s.snow.cold_content[:, roi].copy()
            Ts0 = s.surface.temp[roi].copy()
            model.run_single()
            d, w = model.date, obs.eb
            m, sf = s.meteo, s.surface
            Ta, u, Ts = m.temp[roi], m.wind_speed[roi], sf.temp[roi]
            ice = w["snow.ice_content"][:, roi]
            melt = s.snow.melt[roi]
            dt = model.timestep
            albedo_check(model, case, w, d)
            if method != "energy_balance":
                snowy = w["snow.thickness"][:, roi].sum(axis=0) > 0
                dd = (Ta - mc["threshold_temp"]) * dt / 86400
                pot = mc["degree_day_factor"] * dd
                if method == "enhanced_temperature_index":
                    pot = pot + mc["albedo_factor"] * (1 - sf.albedo[roi]) * m.sw_in[roi] * dt / 86400
                exp = np.where(snowy & (dd > 0), np.minimum(np.maximum(pot, 0), ice.sum(axis=0)), 0)
                check(close(melt, exp, atol=1e-9), f"{d}: {method} melt {melt} instead of {exp}")
                check(np.all(s.snow.sublimation[roi] == 0), "sublimation without energy balance")
                melting |= bool(np.any((melt > 0.01) & (melt < ice.sum(axis=0))))
                continue
            radiation_checks(model, case, d)
            z0, ch = exchange_coeff(case, w, roi, Ta, Ts0, u)
            check(close(sf.turbulent_exchange_coeff[roi], ch, atol=1e-10), f"{d}: exchange coefficient")
            snowy = w["snow.swe"][roi] > 0
            check(np.all(Ts[~snowy] == Ta[~snowy]), f"{d}: snow-free surfaces have air temperature")
            f = flux_checks(model, d, snowy)
            check(np.all(sf.moisture_availability[roi][snowy] == 1), f"{d}: moisture availability of snow")
            G = cc["surface_heat_flux"]
            check(np.all(sf.heat_flux[roi][snowy] == G), f"{d}: heat flux from below")
            warm = snowy & (Ta >= T0)
            frost = snowy & (Ta < T0)
            check(np.all(Ts[warm] == T0), f"{d}: melting surface at {Ts[warm]}")
            check(np.all(Ts[snowy] <= T0), f"{d}: snow surface above the melting point: {Ts[snowy]}")
            en = m.net_radiation[roi] + f["H"] + f["LE"] + f["A"] - G
            # melt: the energy surplus consumes cold content and ice from the top
            left = np.where(warm, np.maximum(en, 0) * dt / LF, 0.0)
            exp = np.zeros(left.shape)
            cold = cold0.copy()
            for i in range(ice.shape[0]):
                on = w["snow.thickness"][i, roi] > 0
                need = ice[i] + cold[i]
                total = on & (left > 0) & (need < left)
                part = on & (left > 0) & ~total
                exp += np.where(total, ice[i], 0) + np.where(part, np.maximum(left - cold[i], 0), 0)
                cold[i] = np.where(total, 0, np.where(part, np.maximum(cold[i] - left, 0), cold[i]))
                left = np.where(total, left - need, np.where(part, 0.0, left))
            check(close(melt, exp, rtol=1e-6, atol=1e-7), f"{d}: melt {melt} instead of {exp}")
            wq = warm & (np.abs(en) > 1e-9)
            check(close(w["snow.cold_content"][:, roi][:, wq], cold[:, wq], rtol=1e-6, atol=1e-7),
                  f"{d}: cold content {w['snow.cold_content'][:, roi][:, wq]} instead of {cold[:, wq]}")
            melting |= bool(np.any((exp > 0.01) & (exp < ice.sum(axis=0))))
            # cold snow: the surface temperature is the zero of the energy balance
            L = m.lat_heat_vap[roi] + LF
            em, alb = case["config"]["meteo"]["radiation"]["snow_emissivity"], sf.albedo[roi]

            def surplus(T):
                rn = (1 - alb) * m.sw_in[roi] + m.lw_in[roi] - em * SIGMA * T**4
                adv = (4180 * (Ta - T) * m.rainfall[roi] + 2100 * (m.wet_bulb_temp[roi] - T) * m.snowfall[roi]) / dt
                le = L * f["tr"] * (m.spec_hum[roi] - q_of(f["p"], es(T)))
                return (rn + CP * f["tr"] * (Ta - T) + le + adv - G)[frost]

            if frost.any():
                freezing = True
                at0 = Ts[frost] == T0
                check(np.all(melt[frost] == 0), f"{d}: melt of cold snow")
                if cc["surface_temperature_iteration_method"] == "secant":
                    lo, hi = surplus(Ts - 0.05), surplus(Ts + 0.05)
                    check(np.all(lo >= -1e-6) and np.all((hi <= 1e-6) | at0),
                          f"{d}: surface temperature {Ts[frost]} does not balance the energy: {lo}, {hi}")
                else:
                    lowest = Ta[frost].min() - 3.0
                    e = surplus(Ts)
                    check(np.all((e >= -1e-6) | (Ts[frost] <= lowest + 0.26)), f"{d}: iterated temperature {Ts[frost]}: {e}")
                    check(np.all((surplus(Ts + 0.25) <= 1e-6) | at0), f"{d}: iterated temperature {Ts[frost]} too low")
                # cold content and refreezing
                e0 = surplus(np.full(Ts.shape, T0))
                avail = np.maximum(-e0 * dt / LF * cc["refreezing_factor"], 0)
                refrozen = s.snow.refreezing[roi][frost]
                gain = (w["snow.cold_content"][:, roi] - cold0)[:, frost].sum(axis=0)
                check(np.all(refrozen + gain <= avail + 1e-7 + 1e-7 * avail) and np.all(refrozen >= 0),
                      f"{d}: refreezing {refrozen} and cold content {gain} exceed the available energy {avail}")
                lw = w["snow.liquid_water_content"][:2, roi][:, frost]
                cap = cc["cold_holding_capacity"] * (ice[:2, frost] + lw)
                now, prev = w["snow.cold_content"][:2, roi][:, frost], cold0[:2, frost]
                # (cold content is only ever lost by the limitation to its capacity)
                check(np.all((now >= prev - 1e-9) | (np.abs(now - cap) < 1e-7)),
                      f"{d}: cold content {prev} reduced to {now}, capacity {cap}")
                th = w["snow.thickness"][:2, roi][:, frost]
                exhausted = (lw * (th > 0)).sum(axis=0) > 1e-6
                bad = (refrozen + gain < avail - 1e-6 - 1e-6 * avail) & exhausted & (avail > 1e-6)
                check(not bad.any(), f"{d}: liquid water not refrozen although energy is available")
                check(np.all((now <= cap + 1e-7) | (now <= prev + 1e-9)), f"{d}: cold content {now} above its capacity {cap}")
            sublimation_check(model, obs, d, obs.sub["snow.ice_content"][:, roi].sum(axis=0) > 0)
    rec.label(method, *(["melt"] if melting else []), *(["frost"] if freezing else []))
    rec.nt(melting)


sub("C17", "cryolayers", lambda: case_strategy("cryolayers"), quick=320, thorough=8000, budget=30,
    rule="partial melt of a snow cover occurred")(cryolayers)
