"""C26: snow albedo, density and layer classes evolve by the configured laws."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, synth
from ..core import check, sub
from .c01 import snow_case

T0, ICE, WATER = 273.15, 917.0, 1000.0
HOUR = 3600.0
DEFAULTS = dict(min=0.55, max=0.85, firn=0.4, ice=0.2, cold_snow_decay_timescale=480.0, melting_snow_decay_timescale=200.0, refresh_snowfall=0.5, refresh_method="binary", decay_timescale_determination_temperature="surface")
COMPACTION = dict(method="anderson", timescale=200.0, max_cold_density=300.0, max_melting_density=500.0)


@st.composite
def cases(draw, model):
    case = draw(snow_case(model, nsteps=(4, 24)))
    s = case["config"]["snow"]
    a = s["albedo"]
    lo = draw(gen.num(0.3, 0.7, 2))
    a.update(
        min=lo, max=draw(gen.num(lo, 0.95, 2)),
        firn=draw(gen.num(0.2, 0.5, 2)), ice=draw(gen.num(0.1, 0.4, 2)),
        cold_snow_decay_timescale=draw(st.sampled_from([24.0, 480.0, 1000.0])),
        melting_snow_decay_timescale=draw(st.sampled_from([6.0, 100.0, 200.0])),
        refresh_snowfall=draw(st.sampled_from([0.1, 0.5, 2.0])),
    )
    if s.get("compaction", {}).get("method") == "empirical":
        s["compaction"].update(
            timescale=draw(st.sampled_from([10.0, 200.0])), max_cold_density=draw(st.sampled_from([120.0, 300.0])),
            max_melting_density=draw(st.sampled_from([250.0, 500.0])),
        )
    if model == "cryolayers" and draw(st.booleans()):
        # end of the season within the run
        case["start"] = case["start"][:8] + "28" + case["start"][10:]
        s["cryolayers"]["transition"]["firn"] = int(case["start"][5:7]) % 12 + 1
    return case


# ---------------------------------------------------------------- documented laws
def fresh_density(tw):
    """Anderson (1976), eq. 4.22; 100 kg m-3 if the temperature is unknown."""
    return 100.0 if math.isnan(tw) else 50 + 1.7 * max(tw - (T0 - 15), 0.0) ** 1.5


def aged_albedo(albedo, cfg, temp, snowfall, dt):
    """Exponential decay towards the minimum, refreshed by snowfall."""
    tau = cfg["melting_snow_decay_timescale"] if temp >= T0 else cfg["cold_snow_decay_timescale"]
    albedo = cfg["min"] + (albedo - cfg["min"]) * math.exp(-dt / (HOUR * tau))
    rel = snowfall / dt * HOUR / cfg["refresh_snowfall"]
    if cfg["refresh_method"] == "continuous":
        return albedo + (cfg["max"] - albedo) * min(1.0, rel)
    return cfg["max"] if rel >= 1 else albedo


def anderson(layers, dt, temp):
    """Densification by load and destructive metamorphism (Anderson 1976; Koivusalo et al. 2001)."""
    above = 0.0
    for l in layers:
        m = l["ice"] + l["lwc"]
        if l["th"] > 0:
            rho = m / l["th"]
            load = above + m / 2
            rate = 0.001 * load * math.exp(-0.08 * (T0 - temp) - 0.021 * rho)
            rate += (0.02 if l["lwc"] > 0 else 0.01) * math.exp(-0.04 * (T0 - temp)) * math.exp(-0.046 * max(rho - 150, 0))
            if not math.isnan(rate):
                rho *= 1 + rate * dt / HOUR
            l["rho"] = rho
            l["th"] = m / rho
        above += m


def empirical(layers, dt, cfg):
    """Relaxation to a maximum density (Essery 2015)."""
    for l in layers:
        if l["th"] > 0:
            rho = (l["ice"] + l["lwc"]) / l["th"]
            top = cfg["max_cold_density"] if l["temp"] < T0 else cfg["max_melting_density"]
            if rho < top:
                l["th"] = (l["ice"] + l["lwc"]) / (top + (rho - top) * math.exp(-dt / (HOUR * cfg["timescale"])))


def remove(layers, amount, to_water):
    """Melt or sublimate ice from the top, at constant density of the ice matrix."""
    for l in layers:
        x = min(amount, l["ice"])
        if x > 0:
            l["th"] *= 1 - x / l["ice"]
            l["ice"] -= x
            if to_water:
                l["lwc"] += x
            amount -= x


def close(a, b, rtol=1e-8, atol=1e-9):
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def layers_of(st_, i, j, names):
    return [{k: float(st_[v][n, i, j]) for k, v in names.items()} for n in range(st_[names["th"]].shape[0])]


def config(case):
    s = case["config"]["snow"]
    return dict(DEFAULTS, **s["albedo"]), dict(COMPACTION, **s.get("compaction", {})), s


NAMES = dict(th="snow.thickness", ice="snow.ice_content", lwc="snow.liquid_water_content")
STATE = [*NAMES.values(), "snow.albedo", "surface.temp", "snow.num_layers"]


def steps(case, names):
    with synth.column_model(case, dict(reset_state_variables=case.get("reset", False))) as model:
        prev = synth.snap(model, names)
        for i in range(case["nsteps"]):
            model.run_single()
            yield i, model, prev, synth.snap(model, names + FLUXES)
            prev = synth.snap(model, names)


FLUXES = ["snow.melt", "snow.sublimation", "snow.refreezing", "snow.runoff", "snow.depth", "snow.area_fraction", "meteo.temp", "meteo.wet_bulb_temp", "meteo.snowfall", "meteo.rainfall"]


# ---------------------------------------------------------------- multilayer
def multilayer(case, rec):
    acfg, ccfg, s = config(case)
    names = dict(NAMES, temp="snow.temp")
    aged = compacted = False
    for n, model, prev, now in steps(case, STATE + ["snow.temp"]):
        dt = model.timestep
        for i, j in model.grid.roi_idxs:
            w = {k: float(now[k][i, j]) for k in FLUXES}
            snowfall = np.nan_to_num(w["meteo.snowfall"])
            layers = layers_of(prev, i, j, names)
            ns = int(prev["snow.num_layers"][i, j])
            where = f"step {n}, pixel {i},{j}"

            # albedo
            a = float(prev["snow.albedo"][i, j])
            if snowfall > 0 and ns == 0:
                a = acfg["max"]
            temp = w["meteo.temp"] if acfg["decay_timescale_determination_temperature"] == "air" else float(prev["surface.temp"][i, j])
            a = aged_albedo(a, acfg, temp, snowfall, dt)
            frost = max(-w["snow.sublimation"], 0.0)
            if frost > 0 and ns == 0 and snowfall == 0:
                a = acfg["max"]
            if now["snow.num_layers"][i, j] == 0:
                a = math.nan
            b = float(now["snow.albedo"][i, j])
            check(close(a, b), f"{where}: albedo {b} instead of {a} (before: {prev['snow.albedo'][i, j]}, snowfall {snowfall})")
            aged |= not math.isnan(a) and not close(a, acfg["max"])

            # density
            if ccfg["method"] == "anderson":
                anderson(layers[:ns], dt, w["meteo.temp"])
            else:
                empirical(layers[:ns], dt, ccfg)
            rho = fresh_density(w["meteo.wet_bulb_temp"])
            if snowfall > 0:
                layers[0]["th"] += snowfall / rho
                layers[0]["ice"] += snowfall
            m, sub_ = w["snow.melt"], max(w["snow.sublimation"], 0.0)
            depth = w["snow.depth"]
            spec = [l["th"] / l["ice"] for l in layers if l["ice"] > 1e-9]
            if m == 0 or len([l for l in layers if l["ice"] > 0]) <= 1:
                remove(layers, m, True)
                if frost > 0:
                    layers[0]["th"] += frost / rho
                    layers[0]["ice"] += frost
                remove(layers, sub_, False)
                total = sum(l["th"] for l in layers)
                check(abs(total - depth) <= 2e-6 + 1e-8 * total, f"{where}: depth {depth} instead of {total}")
                compacted |= total > 0.001
                if ns and m == 0 and not any(l["lwc"] for l in layers) and not w["meteo.rainfall"] > 0 and depth > 1e-4:
                    for k, (th, ice) in enumerate(relayer(layers, s["min_thickness"])):
                        x, y = float(now["snow.thickness"][k, i, j]), float(now["snow.ice_content"][k, i, j])
                        check(close(th, x, atol=2e-6) and close(ice, y, atol=2e-3), f"{where}: layer {k} has {x} m / {y} kg m-2 instead of {th} / {ice}")
            elif spec:
                total = sum(l["th"] for l in layers) + frost / rho
                lo, hi = total - (m + sub_) * max(spec), total - (m + sub_) * min(spec)
                check(lo - 2e-6 <= depth + 1e-7 * total and depth <= hi + 2e-6 + 1e-7 * total, f"{where}: depth {depth} not within {lo}..{hi}")
            scale = s["snow_cover_fraction_depth_scale"]
            f = math.tanh(depth / scale) if scale else float(depth > 0)
            check(abs(f - w["snow.area_fraction"]) <= 1e-4 if scale else (f == w["snow.area_fraction"] or depth < 2e-6), f"{where}: snow covered fraction {w['snow.area_fraction']} at depth {depth}")
    rec.label(ccfg["method"], acfg["refresh_method"])
    rec.nt(aged and compacted)


def relayer(layers, min_thickness):
    """Nominal thicknesses from the top, the rest in the last layer; the ice is distributed by thickness."""
    depth = sum(l["th"] for l in layers)
    th, left = [], depth
    for k, t in enumerate(min_thickness):
        left -= t
        if left <= t or k == len(min_thickness) - 1:
            th.append(t + left)
            break
        th.append(t)
    cum = np.concatenate([[0], np.cumsum([l["th"] for l in layers])])
    ice = np.concatenate([[0], np.cumsum([l["ice"] for l in layers])])
    edges = np.concatenate([[0], np.cumsum(th)])
    edges[-1] = cum[-1]
    keep = np.concatenate([[True], np.diff(cum) > 0])
    at = np.interp(edges, cum[keep], ice[keep])
    out = list(zip(th, np.diff(at)))
    return out + [(0.0, 0.0)] * (len(min_thickness) - len(out))


# ---------------------------------------------------------------- cryo layers
def cryolayers(case, rec):
    acfg, _, s = config(case)
    lwc_cfg, tr = s["liquid_water_content"], s["cryolayers"]["transition"]
    single = s["cryolayers"]["use_single_snow_albedo"]
    names = dict(NAMES, rho="snow.density", alb="snow.layer_albedo", cc="snow.cold_content")
    seen = set()

    def add(l, old, ice, rho):
        if l["ice"] == 0 and ice > 0:
            l["alb"] = old["alb"] if single and old["th"] > 0 else acfg["max"]
        l["ice"] += ice
        l["th"] += ice / rho

    def clear(l):
        l.update(th=0.0, ice=0.0, lwc=0.0, cc=0.0, rho=math.nan, alb=math.nan)

    def move(a, b):
        if b["th"] > 0:
            w1, w2 = a["ice"] + a["lwc"], b["ice"] + b["lwc"]
            for k in ("rho", "alb"):
                b[k] = (w1 * a[k] + w2 * b[k]) / (w1 + w2)
            for k in ("ice", "lwc", "cc"):
                b[k] += a[k]
            b["th"] = (b["ice"] + b["lwc"]) / b["rho"]
        else:
            b.update(a)
        clear(a)

    for n, model, prev, now in steps(case, STATE + ["snow.density", "snow.layer_albedo", "snow.cold_content"]):
        dt = model.timestep
        for i, j in model.grid.roi_idxs:
            w = {k: float(now[k][i, j]) for k in FLUXES}
            snowfall, rain = np.nan_to_num(w["meteo.snowfall"]), np.nan_to_num(w["meteo.rainfall"])
            refreeze = np.nan_to_num(w["snow.refreezing"])
            layers = layers_of(prev, i, j, names)
            new, old, firn, ice = layers
            where = f"step {n}, pixel {i},{j}"

            anderson([new, old], dt, w["meteo.temp"])
            if firn["th"] > 0:
                firn["rho"] += (tr["ice"] - 500.0) / (10 * 365.25 * 24) * dt / HOUR
                firn["th"] = (firn["ice"] + firn["lwc"]) / firn["rho"]
            if ice["th"] > 0:
                ice["rho"] = tr["ice"]
                ice["th"] = (ice["ice"] + ice["lwc"]) / ice["rho"]
            rho = fresh_density(w["meteo.wet_bulb_temp"])
            if snowfall > 0:
                add(new, old, snowfall, rho)

            surf = next((l for l in layers if l["th"] > 0), None)
            temp = w["meteo.temp"] if acfg["decay_timescale_determination_temperature"] == "air" else float(prev["surface.temp"][i, j])
            snow = new if new["th"] > 0 else old
            if snow["th"] > 0:
                a = aged_albedo(snow["alb"], acfg, temp, snowfall, dt)
                for l in (new, old):
                    if l["th"] > 0 and (single or l is surf):
                        l["alb"] = a
            if surf is firn:
                firn["alb"] = acfg["firn"]
            if surf is ice:
                ice["alb"] = acfg["ice"]

            # refreezing in the new and old snow layer, melt and sublimation from the top, drainage
            for l in (new, old):
                x = min(refreeze, l["lwc"])
                l["lwc"] -= x
                l["ice"] += x
                refreeze -= x
            remove(layers, w["snow.melt"], True)
            if w["snow.sublimation"] > 0:
                remove(layers, w["snow.sublimation"], False)
            elif w["snow.sublimation"] < 0:
                add(new, old, -w["snow.sublimation"], rho)
            water = rain
            caps = [0.0 if k > 1 else (lwc_cfg["max"] * l["ice"] if lwc_cfg["method"] == "mass_fraction" else WATER * lwc_cfg["max"] * (l["th"] - l["ice"] / ICE)) for k, l in enumerate(layers)]
            for l, cap in zip(layers, caps):
                if l["ice"] + l["lwc"] > 0:
                    water += l["lwc"]
                    l["lwc"] = min(water, cap)
                    water -= l["lwc"]
            top = next((l for l in layers if l["th"] > 0), None)
            albedo = math.nan if top is None else top["alb"]
            for l in layers:
                if l["th"] > 0:
                    l["rho"] = (l["ice"] + l["lwc"]) / l["th"]
                if l["ice"] + l["lwc"] <= 0:
                    clear(l)

            # transitions
            if new["th"] > 0 and abs(new["rho"] - tr["old_snow"]) < 1e-6 or firn["th"] > 0 and abs(firn["rho"] - tr["ice"]) < 1e-6:
                continue  # (decided by rounding)
            if new["th"] > 0 and new["rho"] >= tr["old_snow"]:
                move(new, old)
                seen.add("old")
            date = model.date
            if n > 0 and date.month == tr["firn"] and model.dates[n - 1].month != tr["firn"] and old["th"] > 0:
                move(old, firn)
                seen.add("firn")
            if firn["th"] > 0 and firn["rho"] >= tr["ice"]:
                move(firn, ice)
                seen.add("ice")

            real = layers_of(now, i, j, names)
            for k, (l, r) in enumerate(zip(layers, real)):
                small = l["ice"] + l["lwc"] < 1e-6 and r["ice"] + r["lwc"] < 1e-6
                for v, tol_ in dict(th=1e-9, ice=1e-7, lwc=1e-7).items():
                    check(close(l[v], r[v], 1e-7, tol_), f"{where}: layer {k}: {v} is {r[v]} instead of {l[v]}")
                if not small:
                    check(close(l["rho"], r["rho"], 1e-7, 1e-6), f"{where}: layer {k}: density {r['rho']} instead of {l['rho']}")
                    check(close(l["alb"], r["alb"], 1e-7), f"{where}: layer {k}: albedo {r['alb']} instead of {l['alb']}")
                    seen.add(f"layer{k}")
            if sum(l["ice"] + l["lwc"] for l in layers) > 1e-6:
                check(close(albedo, float(now["snow.albedo"][i, j]), 1e-7), f"{where}: albedo {now['snow.albedo'][i, j]} instead of {albedo}")
    rec.label(*seen)
    rec.nt(len([x for x in seen if x.startswith("layer")]) >= 2)


sub("C26", "multilayer", lambda: cases("multilayer"), quick=200, thorough=5000, budget=30, rule="snow has aged and compacted")(multilayer)
sub("C26", "cryolayers", lambda: cases("cryolayers"), quick=200, thorough=5000, budget=30, rule="at least two layer classes occurred")(cryolayers)
