"""C19: glacier geometry updates."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import full, gen, synth
from ..core import check, sub

FIRN, ICE = 2, 3
RHO = 917.0  # density used for converting the ice mass to a thickness


# ---------------------------------------------------------------- reference (Huss et al., 2010)
def size_class(area):
    if area >= 20e6:
        return lambda h: (h - 0.02) ** 6 + 0.12 * (h - 0.02)
    if area >= 5e6:
        return lambda h: (h - 0.05) ** 4 + 0.19 * (h - 0.05) + 0.01
    return lambda h: (h - 0.30) ** 2 + 0.60 * (h - 0.30) + 0.09


def ref_change(elev, mb, area, terminus_mb):
    """Distributed mass changes (kg m-2) of the pixels to update."""
    n = len(elev)
    total = sum(mb)
    lo, hi = min(elev), max(elev)
    if total >= 0 or lo == hi:
        return [total / n] * n
    f = size_class(area)
    dh = [min(max(f((hi - e) / (hi - lo)), 0.0), 1.0) for e in elev]
    out = [total * d / sum(dh) for d in dh]
    if terminus_mb < 0:
        clip = [c < terminus_mb for c in out]
        rest = [i for i in range(n) if not clip[i]]
        if any(clip) and len(rest) > 1:
            surplus = sum(c - terminus_mb for c, x in zip(out, clip) if x)
            out = [terminus_mb if x else c for c, x in zip(out, clip)]
            lo, hi = min(elev[i] for i in rest), max(elev[i] for i in rest)
            w = [(elev[i] - lo) / (hi - lo) if hi > lo else 1.0 for i in rest]
            for i, k in zip(rest, w):
                out[i] += surplus * k / sum(w)
    return out


def ref_update(ids, elev, start, end, res):
    """New ice content from the water equivalents (layers, pixels) at the start and the end of the year."""
    new = end[ICE].copy()
    updated = np.zeros(len(ids), bool)
    classes = set()
    for g in sorted(set(ids[ids > 0])):
        pix = [i for i in np.flatnonzero(ids == g) if start[ICE, i] > 0]
        upd = [i for i in pix if start[ICE, i] / RHO >= 10]
        if len(upd) < 2:
            classes.add("skipped")
            continue
        mb = end[ICE] - start[ICE] + end[FIRN] - start[FIRN]
        ez = sorted(elev[i] for i in pix)
        limit = max(ez[int(np.ceil(len(pix) * 0.1)) - 1], ez[0] + 50)
        terminus = min(mb[i] for i in pix if elev[i] <= limit)
        area = len(pix) * res**2
        change = ref_change([elev[i] for i in upd], [mb[i] for i in upd], area, min(terminus, 0))
        for i, c in zip(upd, change):
            new[i] = max(start[ICE, i] + c - (end[FIRN, i] - start[FIRN, i]), 0)
            updated[i] = True
        t = sum(mb[i] for i in upd)
        classes.add("gain" if t > 0 else "none" if t == 0 else "large" if area >= 20e6 else "medium" if area >= 5e6 else "small")
    return new, updated, classes


# ---------------------------------------------------------------- cases
@st.composite
def glacier_cases(draw):
    rows, cols = draw(st.integers(1, 5)), draw(st.integers(2, 6))
    res = draw(st.sampled_from([100, 1000, 2000, 50, 500, 1000, 2000, 3000]))
    dem = draw(gen.dem(rows, cols, relief=draw(st.sampled_from([40, 600]))))
    step = draw(st.sampled_from(["10D", "5D", "10D", "5D", "10D", "D", "10D", "5D", "12h", "10D"]))
    start_month = draw(st.integers(1, 12))
    # begin shortly before or within the mass balance year
    lead = draw(st.sampled_from([0, 0, 1, 3, 10, 20, 40]))
    start = pd.Timestamp(draw(st.sampled_from([2018, 2019, 2020])), start_month, 1) - pd.Timedelta(days=lead)
    years = draw(st.integers(1, 2)) if step in ("5D", "10D") else 1
    days = years * 365 + lead + draw(st.sampled_from([10, -40, 1, 12, 25, 45, 60]))
    nsteps = int(days * 24 / (pd.Timedelta(pd.tseries.frequencies.to_offset(step)).total_seconds() / 3600))
    cfg = dict(
        snow=dict(
            model="cryolayers",
            melt=dict(method="temperature_index", degree_day_factor=draw(st.sampled_from([1.0, 4.0, 10.0])), threshold_temp=273.15),
            cryolayers=dict(transition=dict(old_snow=200.0, firn=draw(st.integers(1, 12)), ice=draw(st.sampled_from([900.0, 900.0, 910.0, 600.0])))),
        ),
        glaciers=dict(enabled=True, delta_h=dict(mass_balance_year_start_month=start_month)),
        output_data=dict(timeseries=dict(write_freq="60D" if step != "12h" else "D")),
    )
    columns = []
    for _ in range(draw(st.integers(1, 4))):
        mean = draw(st.integers(-14, 8))
        columns.append([
            dict(n=draw(st.integers(1, 10)), t=round(273.15 + mean + draw(st.integers(-8, 8)), 2), p=draw(gen.sparse(1, gen.num(0, 40, 1))), rh=70.0, u=2.0, cf=0.5, cl=0.5)
            for _ in range(draw(st.integers(1, 5)))
        ])
    nglac = draw(st.integers(1, 3))
    ids = [[float(draw(st.integers(0, nglac))) for _ in range(cols)] for _ in range(rows)]
    if draw(st.integers(0, 2)):
        ids = [[1.0] * cols for _ in range(rows)]
    case = dict(
        start=str(start), timestep=step, nsteps=nsteps, res=res, dem=dem, grids=dict(glaciers=ids), config=cfg, columns=columns,
        ice=[[float(draw(st.sampled_from([0, 3, 8, 13, 13, 25, 60, 150]))) for _ in range(cols)] for _ in range(rows)],
        firn=[[float(draw(st.sampled_from([0, 0, 2, 6]))) for _ in range(cols)] for _ in range(rows)],
        reset=draw(st.booleans()),
    )
    roi = draw(gen.roi_mask(rows, cols, p_none=4))
    if roi is not None:
        case["grids"]["roi"] = roi
    if draw(st.integers(0, 3)) == 0:
        ids[draw(st.integers(0, rows - 1))][draw(st.integers(0, cols - 1))] = None
    return case


def prepare(case, model):
    """Initial ice and firn."""
    roi = model.grid.roi
    s = model.state.snow
    rho = case["config"]["snow"]["cryolayers"]["transition"]["ice"]
    for layer, name, d, alb in ((ICE, "ice", rho, 0.3), (FIRN, "firn", 550.0, 0.4)):
        h = np.array(case[name])[roi]
        s.thickness[layer, roi] = h
        s.density[layer, roi] = np.where(h > 0, d, np.nan)
        s.ice_content[layer, roi] = h * d
        s.layer_albedo[layer, roi] = np.where(h > 0, alb, np.nan)


def water(model):
    roi = model.grid.roi
    s = model.state.snow
    return (s.ice_content + s.liquid_water_content)[:, roi]


def geometry(case, rec):
    base = dict(case)
    base.pop("ice")
    twin_case = dict(base, config=dict(case["config"], glaciers=dict(enabled=False)), grids={k: v for k, v in case["grids"].items() if k != "glaciers"})
    m0 = case["config"]["glaciers"]["delta_h"]["mass_balance_year_start_month"]
    m1 = (m0 - 2) % 12 + 1
    start = None
    updates, classes, moved = 0, set(), False
    over = dict(reset_state_variables=case["reset"])
    with full.open_model(base, over) as m, full.open_model(twin_case, over) as twin:
        prepare(case, m)
        prepare(case, twin)
        roi = m.grid.roi
        ids = np.nan_to_num(np.array(case["grids"]["glaciers"], float), nan=0.0)
        check(np.array_equal(m.state.glaciers.glacier, ids), "glacier IDs are not those of the grid")
        ids = ids[roi].astype(int)
        elev = np.array(case["dem"])[roi]
        dates = synth.dates_of(case)
        step = dates[1] - dates[0]
        names = [k for k in synth.all_vars(twin) if not k.startswith("glaciers.")]
        for i, d in enumerate(dates):
            m.run_single()
            twin.run_single()
            first = d.month == m0 and (d - step).month != m0
            last = d.month == m1 and (d + step).month != m1
            if last and start is not None:
                end = water(twin)
                new, upd, cl = ref_update(ids, elev, start, end, case["res"])
                classes |= cl
                updates += int(upd.any())
                got = water(m)
                check(np.all(got[:, ~upd] == end[:, ~upd]), f"{d}: ice of pixels which are not updated changed from {end[ICE, ~upd]} to {got[ICE, ~upd]}")
                for k in (0, 1):
                    check(np.all(got[k] == end[k]), f"{d}: snow was changed by the glacier update")
                tot = got[FIRN] + got[ICE]
                tot_ref = end[FIRN] + new
                check(np.all(got >= 0), f"{d}: negative water equivalent")
                check(np.allclose(tot, tot_ref, rtol=1e-9, atol=1e-6), f"{d}: ice {tot} instead of {tot_ref} (start {start[ICE]}, end {end[ICE]}, firn {start[FIRN]} -> {end[FIRN]})")
                for g in set(ids[ids > 0]):
                    p = (ids == g) & upd
                    if p.any() and np.all(new[p] > 0):
                        a, b = end[ICE:, p].sum() + end[FIRN, p].sum(), tot[p].sum()
                        check(abs(a - b) <= 1e-9 * max(a, 1), f"{d}: ice mass of glacier {g} changed from {a} to {b}")
                moved |= bool(np.any(np.abs(new - end[ICE]) > 1))
                s = m.state.snow
                swe, th, rho = s.swe[roi], s.thickness[:, roi], s.density[:, roi]
                check(np.allclose(swe, got.sum(axis=0), rtol=1e-9, atol=1e-6), f"{d}: SWE {swe} is not the sum of the layers {got.sum(axis=0)}")
                h = np.where(got > 0, got / np.where(got > 0, rho, 1), 0)
                check(np.allclose(th, h, rtol=1e-9, atol=1e-9), f"{d}: thickness {th} does not match {h}")
                check(np.allclose(s.depth[roi], th.sum(axis=0), rtol=1e-9), f"{d}: wrong depth")
                ice = case["config"]["snow"]["cryolayers"]["transition"]["ice"]
                r = rho[ICE, upd & (got[ICE] > 0)]
                check(np.all(np.abs(r - ice) < 1) or np.all((r > 400) & (r < 920)), f"{d}: ice density {r}")
                # continue with the updated geometry
                for cat in twin.state.categories:
                    for name in twin.state[cat]._meta:
                        getattr(twin.state[cat], name)[...] = getattr(m.state[cat], name)
            else:
                a, b = synth.snap(m, names), synth.snap(twin, names)
                bad = full.identical(a, b)
                check(not bad, f"{d}: {bad[:4]} affected although it is not the end of the mass balance year")
            if first:
                start = water(m)
        check(np.array_equal(m.state.glaciers.glacier[roi], ids), "glacier IDs have changed")
    rec.label(*classes, f"updates={updates}", case["timestep"])
    rec.nt(updates > 0 and moved)


sub("C19", "geometry", glacier_cases, quick=90, thorough=1500, budget=45, rule="at least one geometry update which redistributes ice")(geometry)
