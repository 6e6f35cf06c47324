"""C24: leaf area follows the configured phenology of each land cover class, at every date."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gen, lc, synth
from ..core import check, sub

WEATHER = [dict(n=1, t=283.15, p=0.0, rh=60.0, u=2.0, cf=0.7, cl=0.3)]


@st.composite
def pheno_case(draw):
    rows, cols = 2, draw(st.integers(2, 4))
    month = draw(st.integers(1, 12))
    start = f"{draw(st.sampled_from([2019, 2020]))}-{month:02d}-{draw(st.integers(1, 28)):02d} 00:00"
    doy = pd.Timestamp(start).dayofyear
    classes = {}
    first = draw(st.sampled_from([1, 30]))
    for i in range(draw(st.integers(1, 3))):
        c = draw(lc.growing_season(doy))
        lo = draw(gen.num(0.1, 6, 1))
        lai = dict(min=lo, max=round(lo + draw(gen.num(0, 8, 1)), 1))
        if draw(st.booleans()):
            lai["effective_add"] = draw(gen.num(0, 2, 1))
        c["leaf_area_index"] = lai
        c["is_forest"] = draw(st.booleans())
        classes[str(first + i)] = c
    classes["40"] = dict(plant_date=1, growth_stage_lengths=[1, 1, 1, 1])
    keys = [int(k) for k in classes] + [0, 99]
    roi = [[float(draw(st.integers(0, 5)) > 0) for _ in range(cols)] for _ in range(rows)]
    roi[0][0] = 1.0
    return dict(
        start=start,
        timestep=draw(st.sampled_from(["24h", "24h", "12h", "6h"])),
        nsteps=draw(st.integers(2, 25)),
        res=100,
        dem=[[1000.0] * cols for _ in range(rows)],
        columns=[WEATHER],
        grids=dict(
            lc=[[float(draw(st.sampled_from(keys))) for _ in range(cols)] for _ in range(rows)],
            roi=roi,
        ),
        config=dict(canopy=dict(enabled=True), land_cover=dict(classes=classes),
                    snow=dict(model="cryolayers", melt=dict(method="temperature_index",
                                                            degree_day_factor=5.0))),
        reset=draw(st.booleans()),
    )


def phenology(case, rec):
    case = dict(case, config=lc.with_int_classes(case["config"]))
    classes = case["config"]["land_cover"]["classes"]
    stages = set()
    with synth.column_model(case, dict(reset_state_variables=case["reset"])) as model:
        lcg = model.state.land_cover.land_cover
        check(np.array_equal(lcg, np.array(case["grids"]["lc"])), "land cover not as in the input")
        roi = np.array(case["grids"]["roi"]) == 1
        for _ in range(case["nsteps"]):
            model.run_single()
            d = model.date
            s = model.state.land_cover
            check(np.array_equal(s.land_cover, np.array(case["grids"]["lc"])),
                  f"{d}: land cover changed")
            for p in np.argwhere(np.ones(roi.shape)):
                p = tuple(p)
                par = classes.get(int(lcg[p]))
                if not roi[p] or par is None or "leaf_area_index" not in par:
                    check(np.isnan(s.lai[p]) and np.isnan(s.lai_eff[p]),
                          f"{d}: LAI at {p} where none is defined: {s.lai[p]}")
                    continue
                la = par["leaf_area_index"]
                cyc = [(0, i + dv, m, lt) for i, dv, m, lt in lc.cycles_of(par)]
                day = d.dayofyear - par["plant_date"] + 1
                exp, stage = lc.stage_curve(day, cyc, la["min"], la["max"], la["min"], la["min"])
                stages.add(stage)
                check(abs(s.lai[p] - exp) < 1e-9, f"{d}: LAI {s.lai[p]}, expected {exp} ({par})")
                e = exp + la.get("effective_add", 0)
                check(abs(s.lai_eff[p] - e) < 1e-9,
                      f"{d}: effective LAI {s.lai_eff[p]}, expected {e} ({par})")
                forest = par["is_forest"]
                has_load = np.isfinite(model.state.snow.canopy_intercepted_load[p])
                check(has_load == forest, f"{d}: canopy processes at {p}: {has_load} ({par})")
    rec.nt(len(stages) >= 2 and bool(stages & {"dev", "late"}))
    rec.label(*stages)


sub("C24", "phenology", pheno_case, quick=320, thorough=8000,
    rule="model runs over generated growing seasons (one or several cycles, zero-length stages); "
    "non-trivial = at least two growth stages incl. a changing one occurred")(phenology)
