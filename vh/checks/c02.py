"""C02: every reachable snowpack state is physically valid and internally consistent."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import check, sub
from .c01 import snow_case, stepping

T0 = 273.15
ICE_DENSITY = 917.0
WATER_DENSITY = 1000.0
EPS = 1e-9


@st.composite
def cases(draw, model):
    case = draw(snow_case(model))
    lo = draw(gen.num(0.3, 0.7))
    case["config"]["snow"]["albedo"].update(
        min=lo, max=draw(gen.num(lo, 0.95)), firn=draw(gen.num(0.2, 0.3)), ice=draw(gen.num(0.1, 0.2))
    )
    if model == "cryolayers":
        case["no_transitions"] = draw(st.booleans())
        if case["no_transitions"]:
            # layer classes are never merged -> the holding capacity can be checked layer by layer
            start = int(case["start"][5:7])
            case["config"]["snow"]["cryolayers"]["transition"] = dict(
                old_snow=1e9, firn=(start + 5) % 12 + 1, ice=1e9
            )
    return case


def max_lwc(cfg, thickness, ice):
    c = cfg["snow"]["liquid_water_content"]
    if c["method"] == "mass_fraction":
        return c["max"] * ice
    return WATER_DENSITY * c["max"] * (thickness - ice / ICE_DENSITY)


# there is no snow at the beginning
NONE = ["snow.swe", "snow.area_fraction", "snow.thickness", "snow.ice_content", "snow.liquid_water_content", "snow.num_layers"]


def validity(case, rec):
    cfg = case["config"]
    multi = cfg["snow"]["model"] == "multilayer"
    acfg = cfg["snow"]["albedo"]
    layers_seen = set()
    wet = cold_again = False
    for model, prev in stepping(case, ["snow.depth", *NONE]):
        roi = model.grid.roi
        s = model.state.snow
        d = model.date
        if model.date_idx == 0:
            for k in NONE:
                check(np.all(prev[k][..., roi] == 0), f"{k} is {prev[k][..., roi]} at the beginning")
        th, ice, lwc = (s[v][:, roi] for v in ("thickness", "ice_content", "liquid_water_content"))
        mass = ice + lwc
        n = s.num_layers[roi]
        depth, swe = s.depth[roi], s.swe[roi]

        for name, v in dict(thickness=th, ice=ice, lwc=lwc).items():
            check(np.all(np.isfinite(v)), f"{d}: {name} not finite")
            check(np.all(v >= -EPS), f"{d}: negative {name}: {v.min()}")
        for name in ("melt", "refreezing", "runoff"):
            v = s[name][roi]
            if name == "refreezing" and not multi and cfg["snow"]["melt"]["method"] != "energy_balance":
                continue
            check(np.all(v >= -EPS), f"{d}: {name} negative or undefined: {v}")

        # layer bookkeeping
        check(np.all(n == (th > 0).sum(0)), f"{d}: number of layers {n} vs thickness {th}")
        check(
            np.allclose(depth, th.sum(0), rtol=1e-9, atol=1.1e-6),
            f"{d}: depth {depth} is not the sum of the layers {th.sum(0)}",
        )
        check(
            np.all(mass[th == 0] <= 1e-9), f"{d}: layers without extent hold mass {mass[th == 0]}"
        )
        check(np.all(mass[th > 0] > 0), f"{d}: layers without mass have an extent")
        dens = s.density[:, roi]
        check(
            np.allclose(dens[th > 0] * th[th > 0], mass[th > 0], rtol=1e-8, atol=1e-12),
            f"{d}: density * thickness != mass",
        )
        if multi:
            mt = np.array(cfg["snow"]["min_thickness"])[:, None]
            k = np.arange(len(mt))[:, None]
            check(np.all((th > 0) == (k < n)), f"{d}: gaps between the layers {th}")
            thin = (k < n - 1) & (th < mt * (1 - 1e-9))
            check(not thin.any(), f"{d}: layer thinner than its nominal thickness: {th}")
            full = (k < n - 1) & (th > mt * (1 + 1e-9))
            check(not full.any(), f"{d}: upper layer thicker than its nominal thickness: {th}")
            lt = s.temp[:, roi][th > 0]
            check(np.all(np.isfinite(lt)), f"{d}: layer temperature undefined")
            check(np.all(lt <= T0 + 1e-6), f"{d}: snow warmer than melting point: {lt}")
            if case["timestep"] == "h":  # the surface scheme may overshoot for long time steps
                check(np.all(lt > 150), f"{d}: absurd snow temperature {lt}")

        # liquid water stays within the holding capacity
        if multi or case["no_transitions"]:
            cap = max_lwc(cfg, th, ice)
            if not multi:
                cap[2:] = 0
            # (refreezing after drainage lowers water and capacity alike)
            check(
                np.all(lwc <= cap + 1e-9 + 1e-9 * mass),
                f"{d}: liquid water {lwc} exceeds the holding capacity {cap}",
            )
        if not multi:
            cc = s.cold_content[:, roi]
            check(np.all(np.isfinite(cc)) and np.all(cc >= -EPS), f"{d}: cold content {cc}")

        # surface optical properties and extent
        af = s.area_fraction[roi]
        check(np.all((af >= 0) & (af <= 1)), f"{d}: snow-covered fraction {af}")
        check(np.all((af > 0) == (depth > 0)), f"{d}: covered fraction {af} vs depth {depth}")
        alb = s.albedo[roi]
        has = depth > 1e-6
        lo, hi = (acfg["min"], acfg["max"]) if multi else (acfg["ice"], acfg["max"])
        check(np.all(np.isfinite(alb[has])), f"{d}: albedo undefined on snow")
        check(
            np.all((alb[has] >= lo - EPS) & (alb[has] <= hi + EPS)), f"{d}: albedo out of range {alb}"
        )
        if not multi:
            for lay in (0, 1):
                la = s.layer_albedo[lay, roi][th[lay] > 0]
                check(
                    np.all((la >= acfg["min"] - EPS) & (la <= acfg["max"] + EPS)),
                    f"{d}: snow layer albedo out of range {la}",
                )

        # fluxes are limited by what is there
        ice0 = prev["snow.ice_content"][:, roi].sum(0)
        lwc0 = prev["snow.liquid_water_content"][:, roi].sum(0)
        snowfall = model.state.meteo.snowfall[roi]
        rainfall = model.state.meteo.rainfall[roi]
        melt, runoff, sub_ = s.melt[roi], s.runoff[roi], s.sublimation[roi]
        t = 1e-6 + 1e-9 * (ice0 + lwc0 + snowfall + rainfall)
        check(
            np.all(melt <= ice0 + lwc0 + snowfall + t),
            f"{d}: melt {melt} exceeds the available snow {ice0 + snowfall}",
        )
        check(
            np.all(runoff <= lwc0 + rainfall + melt + t),
            f"{d}: runoff {runoff} exceeds the available water {lwc0 + rainfall + melt}",
        )
        check(
            np.all(sub_ <= ice0 + lwc0 + snowfall + t),
            f"{d}: sublimation {sub_} exceeds the available snow",
        )
        check(
            np.all(np.abs(runoff - rainfall)[(swe == 0) & (ice0 + lwc0 == 0) & (snowfall == 0)] <= 1e-9),
            f"{d}: rain on snow-free ground does not run off unchanged",
        )
        layers_seen.update(np.unique(n).tolist())
        if np.any(lwc > 0):
            wet = True
        elif wet and np.any(mass > 0):
            cold_again = True
    rec.label(f"max_layers={max(layers_seen)}")
    if wet:
        rec.label("wet")
    if cold_again:
        rec.label("wet_then_dry")
    rec.nt(max(layers_seen) >= 1 and (wet or max(layers_seen) >= 2))


RULE = (
    "as C01 (generated weather histories and snow configurations), invariants evaluated after "
    "every time step; non-trivial = a snow cover with liquid water or with several layers existed"
)
for _m in ("multilayer", "cryolayers"):
    sub("C02", _m, lambda m=_m: cases(m), quick=320, thorough=12000, rule=RULE)(validity)
