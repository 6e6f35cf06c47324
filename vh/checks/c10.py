"""C10: configurations are validated, completed and merged faithfully."""
import copy
import json
import math
import os
import tempfile
from pathlib import Path

import pandas as pd
from hypothesis import strategies as st

import openamundsen as oa
from openamundsen import errors

from ..core import check, sub

REF = json.load(open(Path(__file__).parents[1] / "data" / "config_reference.json"))
SETTINGS = REF["settings"]
CLASSES = REF["land_cover"]
BASE = {
    "domain": "x", "start_date": "2020-01-01 00:00", "end_date": "2020-01-01 18:00", "resolution": 50, "crs": "epsg:32632", "timezone": 1,
}
# settings with a structure of their own
SPECIAL = {
    "domain", "start_date", "end_date", "timestep", "crs", "land_cover.classes", "input_data.meteo.filters",
    "output_data.grids.variables", "output_data.timeseries.points", "output_data.timeseries.variables",
    "meteo.precipitation_correction", "liveview.variables", "output_data.timeseries.write_freq", "numba_threads", "input_data.meteo.bounds",
    "snow.albedo.method", "results_dir", "meteo.precipitation_phase.threshold_temp",
}
STRUCTURED = {
    "input_data.meteo.filters": [[], [dict(var="temp", filter="range", min=250)], [dict(var="sw_in", filter="range", max=9.5), dict(var="precip", filter="range")]],
    "output_data.grids.variables": [[], [dict(var="snow.swe")], [dict(var="meteo.temp", name="t", freq="ME", agg="mean"), dict(var="snow.melt", agg="sum")]],
    "output_data.timeseries.points": [[], [dict(x=1, y=2.5)], [dict(x=1.0, y=2, name="p")]],
    "output_data.timeseries.variables": [[], [dict(var="snow.swe", name="q")], [dict(var="a.b")]],
    "meteo.precipitation_correction": [[], [dict(method="constant_scf", scf=0.15)], [dict(method="wmo", gauge="hellmann")],
                                       [dict(method="kochendorfer", gauge="us_un")], [dict(method="srf")], [dict(method="srf", file="a/b.asc")]],
    "output_data.timeseries.write_freq": ["ME", "YE", "D", "24h", "10h"], "numba_threads": ["auto", 1, 4, None],
    "input_data.meteo.bounds": ["grid", "global", [0, 1.5, 10, 20]], "results_dir": [".", "a/b", "/tmp/x"],
    "timestep": ["h", "3h", "6h", "30min", "1h", "2h"], "meteo.precipitation_phase.threshold_temp": [273.15, 274, 1.5, -1, 0, 20],
}
BAD_STRUCTURED = {
    "input_data.meteo.filters": [[dict(var="foo", filter="range")], [dict(filter="range")], [dict(var="temp", filter="median")], "x", [dict(var="temp", filter="range", q=1)]],
    "output_data.grids.variables": [[dict(name="x")], [dict(var="a.b", agg="median")], [dict(var="a.b", dates=["foo"])], [5]],
    "output_data.timeseries.points": [[dict(x=1)], [dict(x="a", y=1)], [dict(x=1, y=2, name=3)], [dict(x=1, y=2, z=3)]],
    "output_data.timeseries.variables": [[dict(name="q")], [dict(var=5)], ["snow.swe"]],
    "meteo.precipitation_correction": [[dict(method="constant_scf")], [dict(method="wmo")], [dict(method="foo")], [dict(scf=1)], [dict(method="constant_scf", scf="x")]],
    "output_data.timeseries.write_freq": [5], "numba_threads": ["all", 0, -1, 1.5], "input_data.meteo.bounds": ["all", [1, 2, 3], [1, 2, 3, "x"]],
    "timestep": ["foo", "0h", "-3h", "7h", "ME", "", 5], "crs": ["foo", "epsg:4326", 5, "epsg:99999"], "domain": [5, ["a"]],
    "start_date": ["foo", "2020-01-02 00:00"], "end_date": ["foo", "2019-12-31", "2020-01-01 00:10", 5, ["2020-01-01"]],
    "land_cover.classes": [{5: dict(foo=1)}, {5: dict(plant_date=0)}, {5: dict(plant_date=367)}, {5: dict(crop_coefficients=[1, 2])}, {5: 3},
                           {5: dict(growth_stage_lengths=[1, 2, 3])}, {5: dict(leaf_area_index=dict(mean=3))}, {77: dict(is_forest="yes")}, [1]],
    "snow.albedo.method": ["foo", 1],
}
LCC_VALUES = dict(
    crop_coefficient_type=["single", "dual"], crop_coefficients=[[0.25, 1.0, 0.5]], plant_date=[1, 100, 366],
    growth_stage_lengths=[[1, 2, 3, 4], [[1, 2, 3, 4], [5, 6, 7, 8]]], max_height=[0.5, 20], scale_height=[True, False], rooting_depth=[0.75, 3],
    depletion_fraction=[0.5], is_water_body=[True, False], is_sealed=[True], is_sparse=[True], is_forest=[True, False],
    sparse_vegetation_fraction=[0.25], max_sealed_interception=[2], leaf_area_index=[dict(min=1.5, max=7, effective_add=2), dict(max=4.5), dict(min=0), {}],
)


def good(path):
    """Strategy of valid values of a setting."""
    e = SETTINGS[path]
    if path in STRUCTURED:
        return st.sampled_from(STRUCTURED[path])
    if path == "snow.albedo.method":
        return st.just("snow_age")
    if "allowed" in e:
        return st.sampled_from(e["allowed"])
    t = e.get("type")
    lo, hi = e.get("min"), e.get("max")
    if t == "boolean":
        s = st.booleans()
    elif t == "integer":
        s = st.integers(-12 if lo is None else lo, 24 if hi is None else hi)
    elif t in ("number", "float"):
        s = st.integers(0 if lo is None else lo * 64, 6400 if hi is None else hi * 64).map(lambda i: i / 64 if i % 3 else i // 64)
    elif t == "list":
        item = dict(number=st.sampled_from([0.25, 1, 3.5]), float=st.sampled_from([-0.25, 0.5, 0.0]), string=st.sampled_from(["a", "007"]))[e["items"]]
        s = st.lists(item, min_size=e.get("minlength", 0), max_size=e.get("maxlength", 4))
    elif t == "string":
        s = st.sampled_from(["abc", "x/y", "INFO"])
    else:
        raise AssertionError(path)
    return st.one_of(s, st.none()) if e.get("nullable") else s


def bad(path):
    """Strategy of invalid values of a setting."""
    e = SETTINGS[path]
    if path in BAD_STRUCTURED:
        return st.sampled_from(BAD_STRUCTURED[path])
    out = [{"foo": 1}]
    t = e.get("type")
    if path == "results_dir":
        return st.just(5)
    if t != "list":
        out.append([1, "x"])
    if "allowed" in e:
        out += ["foo", e["allowed"][0].upper(), e["allowed"][0] + " "]
    if t in ("number", "integer", "boolean", "float"):
        out += ["5", "yes"]
    if t == "boolean":
        out += [1, 0]
    if t in ("string", "list"):
        out += [5, True]
    if t == "integer":
        out += [1.5]
    if "min" in e:
        out += [e["min"] - 1, -1000]
    if "max" in e:
        out += [e["max"] + 1, 1000]
    if t == "list" and "items" in e:
        if e["items"] != "string":
            out += [["a"] * max(1, e.get("minlength", 0))]
        else:
            out += [[5]]
        if "minlength" in e:
            out += [[0.5] * (e["minlength"] - 1), [0.5] * (e["minlength"] + 1)]
    return st.sampled_from(out)


PATHS = [p for p in SETTINGS if p not in ("liveview.variables", "domain", "start_date", "end_date", "crs", "resolution", "timezone", "land_cover.classes")]


@st.composite
def trees(draw, nmax=8):
    """Valid settings: a flat dict path -> value and land cover classes."""
    out = dict(BASE)
    out["resolution"] = draw(st.sampled_from([1, 50, 100]))
    out["timezone"] = draw(st.integers(-12, 14))
    for p in draw(st.lists(st.sampled_from(PATHS), unique=True, max_size=nmax)):
        out[p] = draw(good(p))
    classes = {}
    for lcc in draw(st.lists(st.sampled_from([1, 2, 4, 5, 6, 99, 150]), unique=True, max_size=2)):
        names = draw(st.lists(st.sampled_from(list(LCC_VALUES)), unique=True, max_size=4))
        classes[lcc] = {n: draw(st.sampled_from(LCC_VALUES[n])) for n in names}
    return dict(settings=out, classes=[[k, v] for k, v in classes.items()])


def nest(flat, classes=()):
    out = {}
    for p, v in flat.items():
        d = out
        *parents, last = p.split(".")
        for k in parents:
            d = d.setdefault(k, {})
        d[last] = copy.deepcopy(v)
    if classes:
        out.setdefault("land_cover", {})["classes"] = {k: copy.deepcopy(v) for k, v in classes}
    return out


def problems(flat):
    """Reasons for which a combination of valid settings must be rejected."""
    g = lambda p: flat.get(p, SETTINGS[p].get("default"))  # noqa: E731
    out = []
    if g("snow.model") == "multilayer" and g("snow.melt.method") != "energy_balance":
        out.append("melt method of the multilayer model")
    if g("snow.melt.method") != "energy_balance" and g("snow.melt.degree_day_factor") is None:
        out.append("no degree day factor")
    if g("snow.melt.method") == "enhanced_temperature_index" and g("snow.melt.albedo_factor") is None:
        out.append("no albedo factor")
    if g("glaciers.enabled") and g("snow.model") != "cryolayers":
        out.append("glaciers without cryolayers")
    return out


def equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def lookup(cfg, path):
    for k in path.split("."):
        cfg = cfg[k]
    return cfg


def parse(tree):
    return oa.OpenAmundsen(tree).config


def compare(cfg, flat, classes):
    """Compare a parsed configuration with the given settings and the documented defaults."""
    for path, e in SETTINGS.items():
        if path == "land_cover.classes":
            continue
        if path not in flat and "default" not in e:
            try:
                lookup(cfg, path)
            except (KeyError, AttributeError):
                continue
            check(False, f"{path} appeared from nowhere")
        exp = flat.get(path, e.get("default"))
        if path in flat and exp is None and not e.get("nullable"):
            exp = e.get("default")
        got = lookup(cfg, path)
        if path in ("start_date", "end_date"):
            exp = pd.Timestamp(exp)
        elif path == "results_dir":
            exp = Path(exp)
        elif path == "meteo.precipitation_phase.threshold_temp" and abs(exp) < 20:
            check(abs(got - exp - 273.15) < 1e-9, f"threshold temperature {got}")
            continue
        check(equal(got, exp), f"{path} is {got!r} instead of {exp!r}")
    exp = {int(k): copy.deepcopy(v) for k, v in CLASSES.items()}
    for k, v in classes:
        d = exp.setdefault(k, {})
        for n, x in v.items():
            if n == "leaf_area_index":
                d[n] = {**d.get(n, {}), **x}
            else:
                d[n] = x
    got = cfg["land_cover"]["classes"]
    check(set(got) == set(exp), f"land cover classes {sorted(got)} instead of {sorted(exp)}")
    for k in exp:
        check(equal(dict(got[k]), exp[k]), f"land cover class {k}: {dict(got[k])} instead of {exp[k]}")


def spoil(obj):
    """Modify everything modifiable within a parsed configuration."""
    if isinstance(obj, dict):
        for v in list(obj.values()):
            spoil(v)
        obj["spoiled"] = 1
    elif isinstance(obj, list):
        for v in obj:
            spoil(v)
        obj.append("spoiled")


def complete(case, rec):
    flat, classes = case["settings"], case["classes"]
    tree = nest(flat, classes)
    before = copy.deepcopy(tree)
    bad_combination = problems(flat)
    try:
        cfg = parse(tree)
    except errors.ConfigurationError as e:
        check(bad_combination, f"valid configuration rejected: {e}")
        rec.label("rejected")
        check(equal(tree, before), "the configuration object was modified")
        return
    check(not bad_combination, f"accepted in spite of: {bad_combination}")
    check(equal(tree, before), f"the configuration object was modified: {tree} instead of {before}")
    compare(cfg, flat, classes)
    # Configuration objects and files are equivalent to dicts
    cfg2 = parse(oa.Configuration.from_dict(tree))
    check(equal(cfg, cfg2), "Configuration object parsed differently")
    if case["file"]:
        import yaml

        text = yaml.safe_dump(tree)
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, "c.yml")
            with open(fn, "w") as f:
                f.write(text)
            check(equal(parse(oa.read_config(fn)), cfg), "configuration file parsed differently")
        check(equal(parse(oa.Configuration.from_yaml(text)), cfg), "YAML string parsed differently")
    spoil(cfg)
    compare(parse(tree), flat, classes)
    check(equal(tree, before), "the configuration object was modified by changing the parsed configuration")
    rec.nt(len(flat) > len(BASE) + 2)


sub("C10", "complete", lambda: trees().flatmap(lambda t: st.booleans().map(lambda f: dict(t, file=f))),
    quick=300, thorough=6000, budget=45, rule="at least 3 settings beyond the required ones")(complete)


# ---------------------------------------------------------------- rejection
@st.composite
def broken(draw):
    tree = draw(trees(nmax=3))
    flat = tree["settings"]
    flat.pop("timestep", None)
    for p in ("snow.model", "snow.melt.method", "glaciers.enabled"):
        flat.pop(p, None)
    kind = draw(st.sampled_from(["value", "value", "value", "unknown", "missing", "combination", "date"]))
    tree["kind"] = kind
    if kind == "value":
        p = draw(st.sampled_from(list(SETTINGS)))
        tree["path"], tree["value"] = p, draw(bad(p))
        if p == "land_cover.classes":
            tree["classes"] = []
            if isinstance(tree["value"], dict):
                tree["value"] = dict(pairs=[[k, v] for k, v in tree["value"].items()])
    elif kind == "unknown":
        parents = sorted({p.rsplit(".", 1)[0] if "." in p else "" for p in SETTINGS} | {"snow", "meteo", "output_data"})
        parent = draw(st.sampled_from(parents))
        key = draw(st.sampled_from(["foo", "Enabled", "timesteps", "method ", "melt_method"]))
        tree["path"], tree["value"] = (parent + "." if parent else "") + key, draw(st.sampled_from([1, "x", None, {}]))
    elif kind == "missing":
        tree["path"] = draw(st.sampled_from(list(BASE)))
    elif kind == "combination":
        tree["extra"] = draw(
            st.sampled_from(
                [
                    {"snow.model": "multilayer", "snow.melt.method": "temperature_index", "snow.melt.degree_day_factor": 3},
                    {"snow.model": "cryolayers", "snow.melt.method": "temperature_index", "snow.melt.degree_day_factor": None},
                    {"snow.model": "cryolayers", "snow.melt.method": "enhanced_temperature_index", "snow.melt.degree_day_factor": 3, "snow.melt.albedo_factor": None},
                    {"snow.model": "cryolayers", "snow.melt.method": "enhanced_temperature_index", "snow.melt.degree_day_factor": None, "snow.melt.albedo_factor": 1},
                    {"glaciers.enabled": True, "snow.model": "multilayer"},
                    {"timestep": "5D", "end_date": "2020-01-11", "output_data.timeseries.write_freq": "8D"},
                    {"timestep": "5D", "end_date": "2020-01-11", "output_data.timeseries.write_freq": "ME"},
                    {"timestep": "2D", "end_date": "2020-01-04", "output_data.timeseries.write_freq": "2D"},
                ]
            )
        )
    else:
        step = draw(st.sampled_from([3, 6]))
        off = draw(st.integers(-30, 60).filter(lambda i: i % step or i < 0))
        tree["extra"] = {"timestep": f"{step}h", "end_date": str(pd.Timestamp("2020-01-01") + pd.Timedelta(hours=off))}
    return tree


def reject(case, rec):
    flat = dict(case["settings"])
    kind = case["kind"]
    if kind in ("value", "unknown"):
        v = case["value"]
        if kind == "value" and case["path"] == "land_cover.classes" and isinstance(v, dict):
            v = {k: x for k, x in v["pairs"]}
        flat[case["path"]] = v
    elif kind == "missing":
        del flat[case["path"]]
    else:
        flat.update(case["extra"])
    tree = nest(flat, case["classes"])
    before = copy.deepcopy(tree)
    rec.label(kind)
    rec.nt()
    try:
        parse(tree)
    except errors.ConfigurationError:
        check(equal(tree, before), "the configuration object was modified")
        return
    what = case.get("extra") or f"{case['path']} = {case.get('value')!r}"
    check(False, f"invalid configuration accepted ({kind}): {what}")


sub("C10", "reject", broken, quick=400, thorough=9000, budget=45, rule="every case (exactly one defect in a valid configuration)")(reject)


# ---------------------------------------------------------------- deprecated settings
PAIRS = [
    ({"snow.model": "layers"}, {"snow.model": "multilayer"}),
    ({"timestep": "3H"}, {"timestep": "3h"}),
    ({"timestep": "H"}, {"timestep": "h"}),
    ({"meteo.interpolation.wind_speed.extrapolate": True}, {"meteo.interpolation.wind.extrapolate": True}),
    ({"meteo.interpolation.cloudiness.day_method": "humidity"}, {"meteo.interpolation.cloudiness.method": "humidity"}),
    ({"meteo.interpolation.cloudiness.night_method": "constant"}, {"meteo.interpolation.cloudiness.clear_sky_fraction_night_method": "constant"}),
    ({"snow.albedo.method": "fsm"}, {"snow.albedo.decay_timescale_determination_temperature": "surface", "snow.albedo.refresh_method": "continuous"}),
    (
        {"snow.albedo.method": "usaco", "snow.albedo.k_neg": 0.125, "snow.albedo.k_pos": 0.25, "snow.albedo.significant_snowfall": 0.75},
        {"snow.albedo.decay_timescale_determination_temperature": "air", "snow.albedo.refresh_method": "binary", "snow.albedo.k_neg": 0.125, "snow.albedo.k_pos": 0.25,
         "snow.albedo.significant_snowfall": 0.75, "snow.albedo.refresh_snowfall": 0.75, "snow.albedo.cold_snow_decay_timescale": 192.0, "snow.albedo.melting_snow_decay_timescale": 96.0},
    ),
    ({"meteo.precipitation_phase.threshold_temp": 0.5}, {"meteo.precipitation_phase.threshold_temp": 273.65}),
]


@st.composite
def deprecated_cases(draw):
    tree = draw(trees(nmax=4))
    which = sorted(draw(st.sets(st.integers(0, len(PAIRS) - 1), min_size=1, max_size=3)))
    touched = {k for i in which for p in PAIRS[i] for k in p}
    for k in list(tree["settings"]):
        if k in touched or k.startswith(("snow.model", "snow.melt", "glaciers", "snow.albedo")) or k == "timestep":
            del tree["settings"][k]
    # (wind_speed replaces the whole section)
    if 3 in which:
        for k in list(tree["settings"]):
            if k.startswith("meteo.interpolation.wind."):
                del tree["settings"][k]
    if 6 in which and 7 in which:
        which.remove(7)
    if 1 in which and 2 in which:
        which.remove(2)
    tree["which"] = which
    return tree


def deprecated(case, rec):
    old, new = dict(case["settings"]), dict(case["settings"])
    for i in case["which"]:
        old.update(PAIRS[i][0])
        new.update(PAIRS[i][1])
    tree = nest(old, case["classes"])
    before = copy.deepcopy(tree)
    a, b = parse(tree), parse(nest(new, case["classes"]))
    check(equal(a, b), f"deprecated settings {[PAIRS[i][0] for i in case['which']]} are not equivalent to the current ones")
    check(equal(tree, before), "the configuration object was modified")
    rec.nt()


sub("C10", "deprecated", deprecated_cases, quick=80, thorough=1500, budget=20, rule="every case (deprecated settings are used)")(deprecated)
