"""C28: features which are not used have no influence, and nothing depends on the future."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import full, lc, synth
from ..core import check, sub


def get(c, path, default=None):
    for p in path.split("."):
        if not isinstance(c, dict) or p not in c:
            return default
        c = c[p]
    return c


def put(c, path, value):
    *head, last = path.split(".")
    for p in head:
        c = c.setdefault(p, {})
    c[last] = value


def melt_method(c):
    return get(c, "snow.melt.method", "energy_balance")


def multilayer(c, case):
    return c["snow"]["model"] == "multilayer"


def cryolayers(c, case):
    return not multilayer(c, case)


def callback(c, case):
    return "columns" in case


def no_energy_balance(c, case):
    return melt_method(c) != "energy_balance"


def without(module):
    return lambda c, case: not get(c, f"{module}.enabled", False)


def setting(path, *values):
    return lambda c, case: get(c, path) in values


def stations_with(path, *values):
    return lambda c, case: "stations" in case and get(c, path) in values


F = st.floats
# (condition under which a setting is not used, setting, values)
UNUSED = [
    (multilayer, "snow.cryolayers.transition.old_snow", F(50, 600)),
    (multilayer, "snow.cryolayers.transition.firn", st.integers(1, 12)),
    (multilayer, "snow.cryolayers.transition.ice", F(400, 917)),
    (multilayer, "snow.cryolayers.cold_holding_capacity", F(0.0, 0.5)),
    (multilayer, "snow.cryolayers.refreezing_factor", F(0.0, 1.0)),
    (multilayer, "snow.cryolayers.surface_heat_flux", F(-50, 50)),
    (multilayer, "snow.cryolayers.surface_temperature_iteration_method", st.sampled_from(["legacy", "secant"])),
    (multilayer, "snow.albedo.firn", F(0.1, 0.9)),
    (multilayer, "snow.albedo.ice", F(0.1, 0.9)),
    (cryolayers, "snow.min_thickness", st.sampled_from([[0.1], [0.3, 0.1], [0.05] * 5])),
    (cryolayers, "snow.thermal_conductivity", F(0.05, 2)),
    (cryolayers, "soil.thickness", st.sampled_from([[0.1], [0.3, 0.1], [0.05] * 5])),
    (cryolayers, "soil.init_moisture_content", F(0.1, 0.9)),
    (cryolayers, "soil.saturated_soil_surface_conductance", F(0.001, 1)),
    (lambda c, case: melt_method(c) == "energy_balance", "snow.melt.degree_day_factor", F(0, 20)),
    (lambda c, case: melt_method(c) == "energy_balance", "snow.melt.threshold_temp", F(260, 280)),
    (lambda c, case: melt_method(c) != "enhanced_temperature_index", "snow.melt.albedo_factor", F(0, 1)),
    (no_energy_balance, "snow.cryolayers.surface_heat_flux", F(-50, 50)),
    (setting("meteo.stability_correction", False, None), "meteo.stability_adjustment_parameter", F(1, 10)),
    (setting("snow.compaction.method", "anderson"), "snow.compaction.timescale", F(50, 500)),
    (setting("snow.compaction.method", "anderson"), "snow.compaction.max_cold_density", F(200, 400)),
    (setting("snow.compaction.method", "anderson"), "snow.compaction.max_melting_density", F(400, 600)),
    (setting("snow.albedo.method", "snow_age", None), "snow.albedo.k_pos", F(0.01, 1)),
    (setting("snow.albedo.method", "snow_age", None), "snow.albedo.k_neg", F(0.01, 1)),
    (setting("snow.albedo.method", "snow_age", None), "snow.albedo.significant_snowfall", F(0, 5)),
    (without("canopy"), "canopy.extinction_coefficient", F(0.1, 1)),
    (without("canopy"), "canopy.temperature_scaling_coefficient", F(0.1, 1)),
    (without("canopy"), "canopy.canopy_flow_index_coefficient", F(0.1, 1)),
    (without("canopy"), "canopy.max_interception_storage_coefficient", F(1, 10)),
    (without("canopy"), "canopy.degree_day_factor", F(0, 10)),
    (without("evapotranspiration"), "evapotranspiration.min_crop_coefficient", F(0.1, 0.5)),
    (without("evapotranspiration"), "evapotranspiration.grass_albedo", F(0.1, 0.5)),
    (without("evapotranspiration"), "evapotranspiration.mean_wind_speed", F(1, 6)),
    (without("evapotranspiration"), "evapotranspiration.surface_soil_layer_evaporation_depth", F(0.05, 0.2)),
    (without("glaciers"), "glaciers.delta_h.mass_balance_year_start_month", st.integers(1, 12)),
    (callback, "meteo.interpolation.temperature.trend_method", st.sampled_from(["regression", "fixed"])),
    (callback, "meteo.interpolation.precipitation.extrapolate", st.booleans()),
    (callback, "meteo.interpolation.humidity.trend_method", st.sampled_from(["regression", "fixed"])),
    (callback, "meteo.interpolation.wind.extrapolate", st.booleans()),
    (callback, "meteo.interpolation.cloudiness.method", st.sampled_from(["clear_sky_fraction", "humidity"])),
    (callback, "meteo.interpolation.cloudiness.pressure_level", F(500, 900)),
    (callback, "meteo.precipitation_correction", st.sampled_from([[], [dict(method="constant_scf", scf=0.5)], [dict(method="wmo", gauge="hellmann")]])),
    (callback, "input_data.meteo.aggregate_when_downsampling", st.booleans()),
    (stations_with("meteo.interpolation.precipitation.trend_method", "regression"), "meteo.interpolation.precipitation.lapse_rate", st.just([0.01] * 12)),
    (stations_with("meteo.interpolation.temperature.trend_method", "fixed"), "meteo.interpolation.temperature.regression_params.max_segments", st.just(3)),
    (stations_with("meteo.interpolation.wind.method", "idw"), "meteo.interpolation.wind.slope_weight", F(0, 1)),
    (stations_with("meteo.interpolation.wind.method", "idw"), "meteo.interpolation.wind.curvature_length_scale", F(100, 3000)),
    (stations_with("meteo.interpolation.cloudiness.method", "prescribed"), "meteo.interpolation.cloudiness.clear_sky_fraction_night_method", st.sampled_from(["humidity", "constant"])),
    (lambda c, case: True, "liveview.cols", st.integers(1, 9)),
    (lambda c, case: True, "liveview.variables", st.just([dict(var="snow.swe", min=0, max=9)])),
    (lambda c, case: True, "input_data.meteo.filters", st.sampled_from([[], [dict(var="temp", filter="range", max=250)]])),
    (lambda c, case: True, "input_data.meteo.bounds", st.sampled_from(["grid", "global"])),
    (lambda c, case: True, "input_data.meteo.exclude", st.just(["s0"])),
    (lambda c, case: True, "input_data.meteo.crs", st.just("epsg:4326")),
]


def no_forest_no_canopy(c, case):
    return without("canopy")(c, case)


@st.composite
def feature_cases(draw):
    case = draw(full.full_case(nsteps=(2, 8), missing=draw(st.sampled_from([0, 0, 0, 6]))))
    c = case["config"]
    rows, cols = len(case["dem"]), len(case["dem"][0])
    grid = lambda values: [[float(draw(values)) for _ in range(cols)] for _ in range(rows)]  # noqa: E731
    cand = [(p, v) for cond, p, v in UNUSED if cond(c, case)]
    change = []
    for i in draw(st.lists(st.integers(0, len(cand) - 1), max_size=6, unique=True)):
        p, v = cand[i]
        change.append([p, draw(v)])
    new = {}
    features = []
    options = ["files"]
    if not get(c, "evapotranspiration.enabled"):
        options.append("evapotranspiration")
    if not get(c, "canopy.enabled"):
        options.append("canopy")
    if c["snow"]["model"] == "cryolayers" and not get(c, "glaciers.enabled"):
        options.append("glaciers")
    if "lc" in case["grids"]:
        options.append("class")
    if "stations" in case:
        options += ["silent", "variable", "gust"]
    features = sorted(draw(st.sets(st.sampled_from(options), max_size=3)))
    # (settings of a module which is enabled by the variant are used)
    change = [x for x in change if x[0].split(".")[0] not in features]
    if "canopy" in features and "lc" not in case["grids"]:
        new["lc"] = grid(st.sampled_from([1, 2, 3, 4, 8, 9, 10, 0]))
    elif "canopy" in features:
        case["grids"]["lc"] = grid(st.sampled_from([1, 2, 3, 4, 8, 9, 10, 0]))
    elif "evapotranspiration" in features and "lc" not in case["grids"]:
        new["lc"] = grid(st.sampled_from([4, 5, 5, 6, 8, 10, 1, 2, 0]))
    if "evapotranspiration" in features:
        new["soil"] = grid(st.integers(1, 9))
    if "glaciers" in features:
        new["glaciers"] = grid(st.just(0))
    case["variant"] = dict(change=change, features=features, grids=new, at=[draw(st.integers(-3, 9)), draw(st.integers(-3, 9))])
    return case


def variant(case):
    v = case["variant"]
    c = copy.deepcopy(case["config"])
    for path, value in v["change"]:
        put(c, path, value)
    other = dict(case, config=c, grids={**case["grids"], **v["grids"]})
    for f in v["features"]:
        if f in ("evapotranspiration", "canopy", "glaciers"):
            put(c, f"{f}.enabled", True)
        elif f == "class":
            used = {int(x) for row in case["grids"]["lc"] for x in row}
            k = next(k for k in (7, 3, 9, 11, 12) if k not in used)
            put(c, f"land_cover.classes.{k}", dict(plant_date=77, growth_stage_lengths=[10, 20, 30, 40], max_height=3.0))
            put(c, "land_cover.classes.200", dict(is_forest=True, leaf_area_index=dict(min=1.0, max=9.0), plant_date=1, growth_stage_lengths=[1, 1, 1, 1]))
        elif f == "files":
            rows, cols = len(case["dem"]), len(case["dem"][0])
            have = other["grids"]
            other["spare"] = {k: [[3.0] * cols for _ in range(rows)] for k in ("lc", "soil", "glaciers", "srf", "foo", "slope") if k not in have}
        elif f == "silent":
            n = case["nsteps"]
            res = case["res"]
            other["stations"] = case["stations"] + [
                dict(id="zz", x=v["at"][0] * res / 2 + 1.0, y=v["at"][1] * res / 2 + 1.0, alt=2000.0,
                     data={k: [None] * n for k in case["stations"][0]["data"]})
            ]
    if "variable" in v["features"] or "gust" in v["features"]:
        extra = {}
        if "variable" in v["features"]:
            extra["foo"] = [1.0] * case["nsteps"]
        if "gust" in v["features"]:
            extra["wind_speed_gust"] = [7.0] * case["nsteps"]
        other["stations"] = [dict(s, data={**s["data"], **extra}) if i == 0 else dict(s, data={**s["data"], **{k: [None] * case["nsteps"] for k in extra}})
                             for i, s in enumerate(other["stations"])]
    return other


def steps(case, n=None):
    out = []
    with full.open_model(case) as m:
        for _ in range(case["nsteps"] if n is None else n):
            m.run_single()
            out.append(synth.all_vars(m))
    return out


def features(case, rec):
    ref = steps(case)
    got = steps(variant(case))
    # (the soil of the cryo layer model is initialized, but not used)
    soil = any(p.startswith("soil.") for p, _ in case["variant"]["change"])
    gust = "gust" in case["variant"]["features"]
    et = "evapotranspiration" in case["variant"]["features"]

    def own(k):
        return (soil and k.startswith("soil.")) or (gust and "gust" in k) or (et and k == "land_cover.plant_height")

    for i, (x, y) in enumerate(zip(ref, got)):
        missing = set(x) - set(y)
        check(not missing, f"variables {missing} vanish with {case['variant']}")
        bad = full.identical({k: v for k, v in x.items() if not own(k)}, y)
        check(not bad, f"step {i}: {bad[:6]} differ with {case['variant']['features']} {case['variant']['change']}")
    rec.label(*case["variant"]["features"], *(p for p, _ in case["variant"]["change"]), *full.labels(case))
    rec.nt(bool(case["variant"]["features"]) or len(case["variant"]["change"]) > 1)


sub("C28", "features", feature_cases, quick=240, thorough=4000, budget=45, rule="a module or several unused settings were changed")(features)


# ---------------------------------------------------------------- causality
@st.composite
def causal_cases(draw):
    case = draw(full.full_case(nsteps=(2, 10), missing=draw(st.sampled_from([0, 0, 0, 6]))))
    case["k"] = draw(st.integers(1, case["nsteps"] - 1))
    case["how"] = draw(st.sampled_from(["shorter", "longer", "changed", "undefined"]))
    if "stations" in case:
        # variables which no station records for some time before the split
        for v in draw(st.sets(st.sampled_from(["wind_speed", "wind_speed", "temp", "rel_hum", "sw_in"]), max_size=2)):
            a = draw(st.integers(0, case["k"] - 1))
            for s in case["stations"]:
                s["data"][v][a : case["k"]] = [None] * (case["k"] - a)
        if draw(st.booleans()):
            case["config"]["meteo"]["precipitation_correction"] = [draw(st.sampled_from([
                dict(method="wmo", gauge="hellmann"), dict(method="wmo", gauge="us_sh"), dict(method="kochendorfer", gauge="us_un"),
                dict(method="kochendorfer", gauge="us_sa")]))]
    else:
        case["later"] = draw(st.fixed_dictionaries(dict(t=F(250, 300), p=F(0, 20), rh=F(5, 100), u=F(0, 15), cf=F(0, 1), cl=F(0, 1))))
    return case


def future(case):
    """The case with other weather after step k, or another end of the period."""
    k, n, how = case["k"], case["nsteps"], case["how"]
    m = dict(shorter=k, longer=n + 3).get(how, n)
    other = dict(case, nsteps=m)
    if "columns" in case:
        cols = []
        for c in case["columns"]:
            s = [dict(n=1, **{v: synth.expand(c, n, v)[i] for v in ("t", "p", "rh", "u", "cf", "cl")}) for i in range(k)]
            later = dict(n=1, **{v: None if how == "undefined" else x for v, x in case["later"].items()})
            cols.append(s + [later] * (m - k))
        other["columns"] = cols
    else:
        st_ = []
        for s in case["stations"]:
            data = {}
            for v, x in s["data"].items():
                tail = [None] * (m - k) if how == "undefined" else (x[k:][::-1] + x + x)[: max(m - k, 0)] if how != "shorter" else []
                data[v] = (x[:k] + tail)[:m]
            st_.append(dict(s, data=data))
        other["stations"] = st_
    return other


def causality(case, rec):
    k = case["k"]
    ref = steps(case, k)
    got = steps(future(case), k)
    for i, (x, y) in enumerate(zip(ref, got)):
        bad = full.identical(x, y)
        check(not bad, f"step {i}: {bad[:6]} depend on the weather after step {k - 1} or the end of the period ({case['how']})")
    rec.label(case["how"], *full.labels(case))
    rec.nt(k > 1)


sub("C28", "causality", causal_cases, quick=240, thorough=4000, budget=40, rule="more than one common step")(causality)
