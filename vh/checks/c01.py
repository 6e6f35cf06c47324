"""C01: the snow mass balance closes for every pixel and time step."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, synth
from ..core import check, sub

VARS = ["snow.swe", "snow.ice_content", "snow.liquid_water_content"]


@st.composite
def snow_config(draw, model):
    cfg = dict(snow=dict(model=model))
    s = cfg["snow"]
    if model == "cryolayers":
        method = draw(
            st.sampled_from(["energy_balance", "temperature_index", "enhanced_temperature_index"])
        )
        s["melt"] = dict(
            method=method,
            degree_day_factor=draw(gen.num(0.5, 20, 1)),
            albedo_factor=draw(gen.num(0, 0.5)),
            threshold_temp=round(273.15 + draw(gen.num(-2, 2, 1)), 2),
        )
        s["cryolayers"] = dict(
            transition=dict(
                old_snow=draw(st.sampled_from([80.0, 120.0, 200.0, 300.0])),
                firn=draw(st.integers(1, 12)),
                ice=draw(st.sampled_from([150.0, 300.0, 900.0])),
            ),
            surface_temperature_iteration_method=draw(st.sampled_from(["secant", "legacy"])),
            use_single_snow_albedo=draw(st.booleans()),
            cold_holding_capacity=draw(st.sampled_from([0.0, 0.05, 0.5, 1.0])),
            refreezing_factor=draw(st.sampled_from([0.0, 0.5, 1.0])),
            surface_heat_flux=draw(st.sampled_from([-2, 0, -10])),
        )
    else:
        s["min_thickness"] = draw(
            st.sampled_from([[0.1, 0.2, 0.4], [0.05, 0.1], [0.2], [0.02, 0.05, 0.1, 0.2, 0.4]])
        )
        s["compaction"] = dict(method=draw(st.sampled_from(["anderson", "empirical"])))
        s["snow_cover_fraction_depth_scale"] = draw(st.sampled_from([0.0, 0.1]))
    s["liquid_water_content"] = dict(
        method=draw(st.sampled_from(["pore_volume_fraction", "mass_fraction"])),
        max=draw(st.sampled_from([0.0, 0.03, 0.1])),
    )
    s["albedo"] = dict(
        refresh_method=draw(st.sampled_from(["binary", "continuous"])),
        decay_timescale_determination_temperature=draw(st.sampled_from(["surface", "air"])),
    )
    cfg["meteo"] = dict(
        stability_correction=draw(st.booleans()),
        precipitation_phase=dict(
            method=draw(st.sampled_from(["wet_bulb_temp", "temp"])),
            temp_range=draw(st.sampled_from([0.0, 1.0, 4.0])),
        ),
    )
    return cfg


@st.composite
def snow_case(draw, model=None, nsteps=(4, 30)):
    model = model or draw(st.sampled_from(["multilayer", "cryolayers"]))
    rows = draw(st.integers(2, 3))
    cols = draw(st.integers(2, 3))
    return dict(
        start=draw(gen.start_dates()),
        timestep=draw(st.sampled_from(gen.TIMESTEPS_H)),
        nsteps=draw(st.integers(*nsteps)),
        res=draw(st.sampled_from([50, 100, 500])),
        dem=draw(gen.dem(rows, cols)),
        columns=draw(st.lists(gen.winter_column(), min_size=1, max_size=4)),
        config=draw(snow_config(model)),
        reset=draw(st.booleans()),
    )


def stepping(case, extra=None):
    """Run the model of a case, yielding (model, previous snapshot) after every step."""
    names = VARS + (extra or [])
    ov = dict(reset_state_variables=case.get("reset", False))
    with synth.column_model(case, ov) as model:
        prev = synth.snap(model, names)
        for _ in range(case["nsteps"]):
            model.run_single()
            yield model, prev
            prev = synth.snap(model, names)


def tol(*arrays):
    return 1e-7 + 1e-9 * sum(np.abs(a) for a in arrays)


def mass_balance(case, rec):
    melted = ran_off = False
    for model, prev in stepping(case):
        roi = model.grid.roi
        s = model.state
        swe0 = prev["snow.swe"][roi]
        storage0 = (prev["snow.ice_content"] + prev["snow.liquid_water_content"])[:, roi].sum(0)
        swe = s.snow.swe[roi]
        storage = (s.snow.ice_content + s.snow.liquid_water_content)[:, roi].sum(0)
        snowfall = s.meteo.snowfall[roi]
        rainfall = s.meteo.rainfall[roi]
        runoff = s.snow.runoff[roi]
        sublim = s.snow.sublimation[roi]
        for n, v in dict(
            swe=swe, storage=storage, snowfall=snowfall, rainfall=rainfall, runoff=runoff,
            sublimation=sublim,
        ).items():
            check(np.all(np.isfinite(v)), f"{model.date}: {n} not finite: {v}")
        resid = storage - storage0 - (snowfall + rainfall - runoff - sublim)
        # Snow covers thinner than 1e-6 m are discarded by design (< 1e-3 kg m-2)
        lim = np.where(storage > 0, tol(storage, storage0, snowfall, rainfall), 1e-3)
        bad = np.abs(resid) > lim
        check(
            not bad.any(),
            f"{model.date}: mass balance residual {resid[bad]} kg m-2 (storage {storage0[bad]} -> "
            f"{storage[bad]}, snowfall {snowfall[bad]}, rain {rainfall[bad]}, runoff "
            f"{runoff[bad]}, sublimation {sublim[bad]})",
        )
        d = np.abs(swe - storage)
        check(
            np.all(d <= np.where(storage > 0, tol(swe), 1e-3)),
            f"{model.date}: SWE {swe} is not the mass of the layers {storage}",
        )
        # the input itself is not created or lost: snow + rain = precipitation of the step
        p = s.meteo.precip[roi]
        check(
            np.all(np.abs(snowfall + rainfall - p) <= tol(p)),
            f"{model.date}: snowfall + rainfall != precipitation",
        )
        # melt and refreezing account for the exchange between ice and liquid water
        cfg = case["config"]["snow"]
        if cfg["model"] == "multilayer" or cfg["melt"]["method"] == "energy_balance":
            ice0, ice = prev["snow.ice_content"][:, roi].sum(0), s.snow.ice_content[:, roi].sum(0)
            resid = ice - ice0 - (snowfall + s.snow.refreezing[roi] - s.snow.melt[roi] - sublim)
            bad = np.abs(resid) > lim
            check(not bad.any(),
                  f"{model.date}: ice balance residual {resid[bad]} kg m-2 ({ice0[bad]} -> {ice[bad]}, "
                  f"snowfall {snowfall[bad]}, melt {s.snow.melt[roi][bad]}, refreezing "
                  f"{s.snow.refreezing[roi][bad]}, sublimation {sublim[bad]})")
        melted |= bool(np.any(s.snow.melt[roi] > 0.01) and np.any(storage0 > 1))
        ran_off |= bool(np.any((runoff > 0.01) & (swe0 > 1)))
    rec.nt(melted and ran_off)
    rec.label(case["config"]["snow"]["model"], case["timestep"])
    if melted:
        rec.label("melt")
    if ran_off:
        rec.label("runoff_from_snow")
    if case["config"]["snow"]["model"] == "cryolayers":
        rec.label(case["config"]["snow"]["melt"]["method"])


RULE = (
    "model runs with generated per-pixel weather histories (snow, rain-on-snow, melt, frost), "
    "snow model configurations, time steps and terrain; non-trivial = melt and runoff from an "
    "existing snow cover occurred"
)

sub("C01", "multilayer", lambda: snow_case("multilayer"), quick=320, thorough=12000, rule=RULE)(
    mass_balance
)
sub("C01", "cryolayers", lambda: snow_case("cryolayers"), quick=320, thorough=12000, rule=RULE)(
    mass_balance
)
