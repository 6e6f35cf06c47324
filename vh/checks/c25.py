"""C25: gaps in the forcing data."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import full, synth
from ..core import check, sub
from .c11 import callback_for, grid_vars, independent_case

# variables which are only defined where there is snow (or a snow layer)
SNOW_ONLY = ("snow.albedo", "snow.density", "snow.layer_albedo", "snow.temp")
FORCING = ("meteo.temp", "meteo.precip", "meteo.rel_hum", "meteo.wind_speed")


def retained(model):
    shape = model.grid.roi.shape
    out = {}
    for cat in model.state.categories:
        for name, meta in model.state[cat]._meta.items():
            v = getattr(model.state[cat], name)
            if meta.retain and v.dtype.kind == "f" and v.shape[-2:] == shape and not cat == "base":
                out[f"{cat}.{name}"] = v[..., model.grid.roi].copy()
    return out


def check_states(before, after, where):
    """
    Finite states remain finite (except those of snow which has vanished, and
    the surface temperature of the layer models, which is determined anew from
    the air temperature in every step), masses are not negative.
    """
    multilayer = "snow.therm_cond" in after
    for k, v in after.items():
        if k in SNOW_ONLY:
            p = after["snow.swe"] > 1e-3 if v.ndim == 1 else after["snow.thickness"] > 0
            if k == "snow.temp" and np.all(np.isnan(before[k])):
                continue
            check(np.all(np.isfinite(v[p])), f"{where}: {k} is undefined for existing snow: {v}")
        elif not k.startswith("meteo.") and not (k.startswith("surface.") and not multilayer):
            bad = np.isfinite(before[k]) & ~np.isfinite(v)
            check(not bad.any(), f"{where}: {k} has become undefined ({v[..., bad.reshape(-1, bad.shape[-1]).any(axis=0)]})")
    for k in ("snow.swe", "snow.thickness", "snow.ice_content", "snow.liquid_water_content"):
        check(np.all(after[k] >= -1e-9), f"{where}: negative {k}")


def above_canopy(names):
    """
    The forcing variables above the canopy (below, they depend on the
    temperatures of the last day, and on the snow in the canopy).
    """
    if "meteo.top_canopy_temp" not in names:
        return FORCING
    return [k.replace("meteo.", "meteo.top_canopy_") for k in FORCING if k != "meteo.precip"]


# ---------------------------------------------------------------- all models, all patterns
@st.composite
def gap_cases(draw):
    case = draw(full.full_case(missing=draw(st.sampled_from([2, 4, 4, 8])), nsteps=(3, 10)))
    n = case["nsteps"]
    if "columns" in case:
        case["undefined_precip"] = draw(st.booleans())
        for c in case["columns"]:
            for s in c:
                if draw(st.integers(0, 7)) == 0:
                    s["cf"] = s["cl"] = None
    elif draw(st.booleans()):  # nothing at all for some steps
        a = draw(st.integers(0, n - 1))
        b = draw(st.integers(a, n - 1))
        for s in case["stations"]:
            for v in s["data"].values():
                v[a : b + 1] = [None] * (b + 1 - a)
    return case


def gaps(case, rec):
    """The run continues, and no state becomes undefined."""
    undefined = 0
    with full.open_model(case) as m:
        before = retained(m)
        for i in range(case["nsteps"]):
            m.run_single()
            t = m.state.meteo.temp[m.grid.roi]
            if np.any((t < 200) | (t > 330)):
                # elevation trends of stations close to each other may extrapolate to any temperature
                rec.label("unphysical temperature")
                break
            after = retained(m)
            check_states(before, after, f"step {i}")
            undefined += int(np.isnan(m.state.meteo.temp[m.grid.roi]).any())
            before = after
        snow = bool(np.any(before["snow.swe"] > 0))
    rec.label(*full.labels(case))
    rec.nt(undefined > 0 and snow)


sub("C25", "gaps", gap_cases, quick=400, thorough=3000, budget=30, rule="undefined air temperature in some step, with snow at the end")(gaps)


# ---------------------------------------------------------------- mass in undefined weather
@st.composite
def column_gaps(draw):
    case = draw(full.full_case(forcing="columns", nsteps=(4, 12), glaciers=False))
    n = case["nsteps"]
    a = draw(st.integers(1, n - 1))
    case["gap"] = [a, draw(st.integers(a, n - 1))]
    case["vars"] = sorted(draw(st.sets(st.sampled_from(["t", "rh", "u", "p", "cf"]), min_size=1)))
    case["which"] = draw(st.integers(0, len(case["columns"]) - 1))
    return case


def with_gap(case):
    """The columns expanded to single steps, with the gap in column ``which``."""
    n = case["nsteps"]
    cols = []
    for k, c in enumerate(case["columns"]):
        steps = [dict(n=1, **{v: synth.expand(c, n, v)[i] for v in ("t", "p", "rh", "u", "cf", "cl")}) for i in range(n)]
        if k == case["which"]:
            for i in range(case["gap"][0], case["gap"][1] + 1):
                for v in case["vars"]:
                    steps[i][v] = None
                if "cf" in case["vars"]:
                    steps[i]["cl"] = None
        cols.append(steps)
    return dict(case, columns=cols)


def mass(case, rec):
    """Without air temperature, a snow pack only loses the water which drains from it (and melt by the heat of the ground)."""
    g = with_gap(case)
    cr = np.arange(len(case["dem"]) * len(case["dem"][0])).reshape(len(case["dem"]), -1) % len(case["columns"])
    checked = False
    with full.open_model(g) as m:
        roi = m.grid.roi
        own = (cr == case["which"])[roi]
        before = retained(m)
        for i in range(case["nsteps"]):
            m.run_single()
            after = retained(m)
            check_states(before, after, f"step {i}")
            if case["gap"][0] <= i <= case["gap"][1] and own.any():
                ice0, ice1 = before["snow.ice_content"].sum(0)[own], after["snow.ice_content"].sum(0)[own]
                lwc0, lwc1 = before["snow.liquid_water_content"].sum(0)[own], after["snow.liquid_water_content"].sum(0)[own]
                swe0, swe1 = ice0 + lwc0, ice1 + lwc1
                tol = 1e-6 * (1 + swe0)
                if "t" in case["vars"]:
                    # (with a fixed threshold, precipitation of unknown phase counts as rain)
                    rain = np.nan_to_num(m.state.meteo.rainfall[roi][own])
                    check(np.all(np.nan_to_num(m.state.meteo.snowfall[roi][own]) == 0), f"step {i}: snowfall at undefined temperatures")
                    check(np.all(swe1 <= swe0 + rain + tol), f"step {i}: snow water equivalent increased from {swe0} to {swe1} in undefined weather (rain: {rain})")
                    drained = lwc0 + rain
                    if case["config"]["snow"]["model"] == "multilayer":  # (melt by the heat of the ground)
                        drained += np.nan_to_num(m.state.snow.melt[roi][own])
                    check(np.all(swe0 - swe1 <= drained + tol), f"step {i}: snow water equivalent decreased from {swe0} to {swe1} ({lwc0} liquid) in undefined weather")
                    checked |= bool(np.any(swe0 > 0))
                elif "p" in case["vars"]:
                    # only resublimation may add snow
                    sub_ = np.nan_to_num(m.state.snow.sublimation[roi][own])
                    check(np.all(swe1 <= swe0 + np.maximum(-sub_, 0) + tol + canopy_gain(case, before, own)), f"step {i}: snow water equivalent increased from {swe0} to {swe1} without precipitation")
            before = after
    rec.label(*case["vars"], *full.labels(case))
    rec.nt(checked)


def canopy_gain(case, before, own):
    """Snow stored in the canopy may be unloaded."""
    load = before.get("snow.canopy_intercepted_load")
    return 0.0 if load is None else np.nan_to_num(load[own])


sub("C25", "mass", column_gaps, quick=110, thorough=2500, budget=20, rule="a snow pack during a gap of air temperature")(mass)


# ---------------------------------------------------------------- other pixels and recovery
@st.composite
def local_gaps(draw):
    case = draw(independent_case(forcing="columns"))
    case["nsteps"] = n = draw(st.integers(4, 12))
    for c in case["columns"]:
        for s in c:
            for k, v in (("t", 270.0), ("rh", 70.0), ("u", 2.0), ("p", 1.0)):
                s[k] = v if s[k] is None else s[k]
    a = draw(st.integers(0, n - 2))
    case["gap"] = [a, draw(st.integers(a, n - 2))]
    case["vars"] = sorted(draw(st.sets(st.sampled_from(["t", "rh", "u", "p", "cf"]), min_size=1)))
    case["which"] = draw(st.integers(0, len(case["columns"]) - 1))
    return case


def local(case, rec):
    """Pixels without gaps are not affected, and the affected ones recover."""
    g = with_gap(case)
    own = np.array(case["index"]) == case["which"]
    with full.open_model(case, callback=callback_for(case)) as a, full.open_model(g, callback=callback_for(g)) as b:
        for i in range(case["nsteps"]):
            a.run_single()
            b.run_single()
            x, y = grid_vars(a), grid_vars(b)
            if i < case["gap"][0]:
                check(not full.identical(x, y), f"step {i} before the gap is affected")
            bad = full.identical(x, y, ~own)
            check(not bad, f"step {i}: {bad[:5]} of pixels without gaps are affected")
            snow0, none0 = (snow, none) if i else (False, True)
            snow = (x["snow.swe"] > 1e-6) & (y["snow.swe"] > 1e-6)
            none = (x["snow.swe"] == 0) & (y["snow.swe"] == 0)
            if i > case["gap"][1] and own.any():
                p = own & ((snow & snow0) | (none & none0))
                for k, v in x.items():
                    if v.dtype.kind != "f" or k in ("meteo.last_24h_temps", *SNOW_ONLY) or k.startswith("base."):
                        continue
                    bad = np.isfinite(v[..., p]) & ~np.isfinite(y[k][..., p])
                    check(not bad.any(), f"step {i}: {k} is still undefined after the gap (until step {case['gap'][1]})")
                for k in above_canopy(x):
                    check(not full.identical({k: x[k]}, {k: y[k]}), f"step {i}: {k} differs after the gap")
    rec.label(*case["vars"], *full.labels(case))
    rec.nt(own.any() and not own.all())


sub("C25", "local", local_gaps, quick=110, thorough=2500, budget=25, rule="pixels with and without gaps")(local)


# ---------------------------------------------------------------- station data
@st.composite
def station_gaps(draw):
    case = draw(full.full_case(forcing="stations", nsteps=(3, 10)))
    n = case["nsteps"]
    gaps = []
    for _ in range(draw(st.integers(1, 3))):
        s = draw(st.integers(0, len(case["stations"]) - 1))
        v = draw(st.sampled_from(sorted(case["stations"][s]["data"])))
        a = draw(st.integers(0, n - 1))
        gaps.append([s, v, a, draw(st.integers(a, n - 1))])
    case["gaps"] = gaps
    return case


def stations(case, rec):
    """Gaps at a station do not affect the interpolated fields of other time steps and variables."""
    g = copy.deepcopy(case)
    hit = {}
    for s, v, a, b in case["gaps"]:
        data = g["stations"][s]["data"][v]
        for i in range(a, b + 1):
            data[i] = None
            hit.setdefault(i, set()).add(v)
    different = False
    with full.open_model(case) as ma, full.open_model(g) as mb:
        roi = ma.grid.roi
        before = retained(mb)
        for i in range(case["nsteps"]):
            ma.run_single()
            mb.run_single()
            after = retained(mb)
            check_states(before, after, f"step {i}")
            before = after
            h = hit.get(i, set())
            # the corrections of precipitation depend on the other variables, humidity on temperature
            deps = dict(temp={"temp"}, rel_hum={"rel_hum", "temp"}, precip={"precip", "temp", "rel_hum", "wind_speed"}, wind_speed={"wind_speed", "wind_dir"})
            for k in above_canopy(synth.all_vars(mb)):
                same = not full.identical({k: synth.get(ma, k)}, {k: synth.get(mb, k)})
                if not (h & deps[k.replace("top_canopy_", "")[6:]]):
                    check(same, f"step {i}: {k} is affected by gaps of {sorted(h)} (gaps: {case['gaps']})")
                different |= not same
            for k in h & {"temp", "precip", "rel_hum", "wind_speed"}:
                left = any(s["data"][k][i] is not None for s in g["stations"])
                others = [s for s in g["stations"] if all(s["data"][v][i] is not None for v in deps[k] if v in s["data"])]
                v = synth.get(mb, f"meteo.{k}")[roi]
                if others and left:
                    check(np.all(np.isfinite(v)), f"step {i}: {k} is undefined although station {others[0]['id']} has data")
                if not left:
                    # (documented: no precipitation if there are no measurements)
                    check(np.all(v == 0) if k == "precip" else np.all(np.isnan(v)), f"step {i}: {k} is {v} although there are no data")
    rec.nt(different)


sub("C25", "stations", station_gaps, quick=100, thorough=2000, budget=20, rule="the gap affects an interpolated field")(stations)
