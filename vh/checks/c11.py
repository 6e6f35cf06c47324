"""C11: results are confined to the region of interest and independent of it."""
import numpy as np
from hypothesis import strategies as st

from .. import full, gen, synth
from ..core import check, sub

# constant inputs, which are available for the whole grid
INPUTS = ("base.", "land_cover.land_cover", "evapotranspiration.soil_texture", "glaciers.glacier")


def grid_vars(model):
    shape = model.grid.roi.shape
    return {k: v for k, v in synth.all_vars(model).items() if v.shape[-2:] == shape}


@st.composite
def partial_roi(draw, case):
    """Add a region of interest which leaves out at least one pixel (and extend 1x1 grids)."""
    if len(case["dem"]) * len(case["dem"][0]) < 2:
        case["dem"] = [case["dem"][0] * 2]
        for k, g in case["grids"].items():
            case["grids"][k] = [g[0] * 2]
        if "ice" in case:
            case["ice"] = [case["ice"][0] * 2]
    rows, cols = len(case["dem"]), len(case["dem"][0])
    roi = [[draw(st.integers(0, 1)) for _ in range(cols)] for _ in range(rows)]
    flat = [(i, j) for i in range(rows) for j in range(cols)]
    i, j = draw(st.sampled_from(flat))
    roi[i][j] = 1
    if all(all(r) for r in roi):
        flat.remove((i, j))
        i, j = draw(st.sampled_from(flat))
        roi[i][j] = 0
    case["grids"]["roi"] = roi
    return case


# ---------------------------------------------------------------- nothing happens outside
@st.composite
def outside_cases(draw):
    case = draw(full.full_case(missing=draw(st.sampled_from([0, 0, 8])), nsteps=(2, 8)))
    case = draw(partial_roi(case))
    case["reset"] = draw(st.booleans())
    return case


def outside(case, rec):
    """Values outside the region of interest never change, and no weather or snow appears there."""
    with full.open_model(case, dict(reset_state_variables=case["reset"])) as m:
        out = ~m.grid.roi
        init = grid_vars(m)
        first = None
        for i in range(case["nsteps"]):
            m.run_single()
            now = grid_vars(m)
            if first is None:
                first = now
                for k, v in now.items():
                    if k.startswith(INPUTS):
                        check(not full.identical({k: init[k]}, {k: v}), f"input {k} was changed")
                        continue
                    x = v[..., out]
                    if k.startswith("meteo."):
                        check(not full.identical({k: init[k]}, {k: v}, out), f"{k} outside the region of interest was set to {x.ravel()[:4]}")
                    # (derived variables may have constant values)
                    same = np.array_equal(x, np.broadcast_to(x[..., :1], x.shape), equal_nan=x.dtype.kind == "f")
                    same = same or not full.identical({k: init[k]}, {k: v}, out)
                    check(same, f"{k} outside the region of interest depends on the pixel: {x}")
            else:
                bad = full.identical(first, now, out)
                check(not bad, f"{bad[:4]} changed outside the region of interest at step {i}")
            for k in ("snow.swe", "snow.depth", "snow.melt", "snow.runoff"):
                if k in now:
                    x = now[k][..., out]
                    check(not np.any(x > 0), f"{k} outside the region of interest: {x}")
        inside = grid_vars(m)["snow.swe"][~out]
    rec.label(*full.labels(case))
    rec.nt(np.any(inside > 0))


sub("C11", "outside", outside_cases, quick=140, thorough=1500, budget=25, rule="there is snow inside the region of interest at the end")(outside)


# ---------------------------------------------------------------- values outside have no influence
@st.composite
def garbage_cases(draw):
    case = draw(full.full_case(missing=draw(st.sampled_from([0, 0, 8])), nsteps=(2, 7)))
    case = draw(partial_roi(case))
    case["garbage"] = draw(st.sampled_from([0.0, 1.0, -7.5, 255.0, 280.0, 1e6, "inf"]))
    case["steps"] = sorted(draw(st.sets(st.integers(0, case["nsteps"] - 1), min_size=1)))
    return case


def garbage(case, rec):
    """Arbitrary values written to the state outside the region of interest do not affect the inside."""
    refs = []
    with full.open_model(case) as m:
        roi = m.grid.roi.copy()
        for _ in m.dates:
            m.run_single()
            refs.append(grid_vars(m))
    g = float(case["garbage"])
    with full.open_model(case) as m:
        out = ~m.grid.roi
        for i in range(case["nsteps"]):
            if i in case["steps"]:
                for cat in m.state.categories:
                    for name in m.state[cat]._meta:
                        k = f"{cat}.{name}"
                        arr = getattr(m.state[cat], name)
                        if k.startswith(INPUTS) or arr.shape[-2:] != out.shape:
                            continue
                        if arr.dtype.kind == "f":
                            arr[..., out] = g
            with np.errstate(all="ignore"):
                m.run_single()
            bad = full.identical(refs[i], grid_vars(m), roi)
            check(not bad, f"{bad[:5]} depend on values outside the region of interest (step {i})")
    rec.label(*full.labels(case))
    rec.nt(np.any(refs[-1]["snow.swe"][roi] > 0))


sub("C11", "garbage", garbage_cases, quick=110, thorough=1200, budget=25, rule="there is snow inside the region of interest at the end")(garbage)


# ---------------------------------------------------------------- other regions and grids
def callback_for(case):
    """Meteo callback assigning to every pixel the weather column case["columns"][case["index"][row][col]]."""
    cols, n = case["columns"], case["nsteps"]
    idx = np.array(case["index"])
    names = dict(t="temp", p="precip", rh="rel_hum", u="wind_speed", cf="cloud_factor", cl="cloud_fraction")
    arr = {k: np.array([[np.nan if v is None else v for v in synth.expand(c, n, k)] for c in cols]) for k in names}
    arr["p"] = np.nan_to_num(arr["p"])  # (as in the interpolation of station data)

    def callback(model):
        roi = model.grid.roi
        for k, name in names.items():
            getattr(model.state.meteo, name)[roi] = arr[k][idx[roi], model.date_idx]

    return callback


@st.composite
def independent_case(draw, forcing=None):
    """A case without interaction between the pixels: constant albedo, no terrain, own clouds."""
    case = draw(full.full_case(forcing=forcing, nsteps=(2, 8), glaciers=False, legacy=False, missing=draw(st.sampled_from([0, 0, 0, 8]))))
    cfg = case["config"]
    cfg["snow"].setdefault("albedo", {}).update(min=0.5, max=0.5, firn=0.5, ice=0.5)
    cfg["soil"] = dict(albedo=0.5)
    rows, cols = len(case["dem"]), len(case["dem"][0])
    case["grids"].pop("roi", None)
    case["grids"]["svf"] = [[1.0] * cols for _ in range(rows)]
    if "stations" in case:
        c = cfg["meteo"]["interpolation"]["cloudiness"]
        c["method"] = "prescribed" if c["method"] == "prescribed" else "humidity"
        if case["stations"][0]["data"].get("cloud_fraction"):
            c["allow_fallback"] = False
        cfg["meteo"]["interpolation"]["wind"]["method"] = "idw"  # (the terrain factors of Liston are scaled over the domain)
    else:
        n = len(case["columns"])
        case["index"] = [[draw(st.integers(0, n - 1)) for _ in range(cols)] for _ in range(rows)]
    return case


def run(case):
    """All state variables after every step (and the region of interest)."""
    out = []
    cb = callback_for(case) if "columns" in case else None
    with full.open_model(case, callback=cb) as m:
        for _ in m.dates:
            m.run_single()
            out.append({k: v for k, v in grid_vars(m).items() if not k.startswith("base.")})
        return out, m.grid.roi.copy()


@st.composite
def subset_cases(draw):
    case = draw(independent_case())
    case = draw(partial_roi(case))
    if "index" in case and len(case["index"][0]) != len(case["dem"][0]):
        case["index"] = [case["index"][0] * 2]
    small = case["grids"].pop("roi")
    big = [[max(v, draw(st.integers(0, 3)) > 0) for v in r] for r in small]
    case["small"], case["big"] = small, [[int(v) for v in r] for r in big]
    return case


def subset(case, rec):
    """Simulating a part of the pixels gives the same results for these."""
    a, roi_a = run(dict(case, grids=dict(case["grids"], roi=case["big"])))
    b, roi_b = run(dict(case, grids=dict(case["grids"], roi=case["small"])))
    check(not np.any(roi_b & ~roi_a), "wrong region of interest")
    for i, (x, y) in enumerate(zip(a, b)):
        bad = full.identical(x, y, roi_b)
        check(not bad, f"{bad[:6]} differ in step {i} if only {int(roi_b.sum())} instead of {int(roi_a.sum())} pixels are simulated")
    rec.label(*full.labels(case))
    rec.nt(roi_a.sum() > roi_b.sum() and np.any(a[-1]["snow.swe"][roi_b] > 0))


sub("C11", "subset", subset_cases, quick=130, thorough=1500, budget=30, rule="a proper subset, with snow at the end")(subset)


@st.composite
def padding_cases(draw):
    # (the pixels may interact, e.g. by radiation from the surrounding terrain)
    if draw(st.booleans()):
        case = draw(independent_case())
    else:
        case = draw(full.full_case(nsteps=(2, 8), glaciers=False, missing=draw(st.sampled_from([0, 0, 0, 8]))))
        case["grids"].pop("roi", None)
        if "stations" in case:
            case["config"]["meteo"]["interpolation"]["wind"]["method"] = "idw"
        else:
            n = len(case["columns"])
            case["index"] = [[draw(st.integers(0, n - 1)) for _ in r] for r in case["dem"]]
    rows, cols = len(case["dem"]), len(case["dem"][0])
    case["grids"]["svf"] = [[draw(st.sampled_from([1.0, 0.875, 0.75, 0.5])) for _ in range(cols)] for _ in range(rows)]
    case["dem"] = [[case["dem"][0][0]] * cols for _ in range(rows)]
    roi = draw(gen.roi_mask(rows, cols))
    if roi is not None:
        case["grids"]["roi"] = roi
    pad = [draw(st.integers(0, 2)), draw(st.integers(0, 2))]
    case["padding"] = pad if any(pad) else [1, 0]
    case["fill"] = draw(st.sampled_from([1.0, 4.0, 5.0, 6.0]))
    return case


def padding(case, rec):
    """Unused rows and columns around the grid do not change the results."""
    a, roi = run(case)
    pr, pc = case["padding"]

    def pad(g, v):
        return np.pad(np.array(g), ((pr, pr), (pc, pc)), constant_values=v).tolist()

    rows, cols = roi.shape
    grids = {k: pad(g, {"svf": 1.0}.get(k, case["fill"])) for k, g in case["grids"].items()}
    grids["roi"] = pad(case["grids"].get("roi", np.ones((rows, cols))), 0)
    other = dict(case, dem=pad(case["dem"], case["dem"][0][0]), grids=grids, pad=[pr, pc])
    if "index" in case:
        other["index"] = pad(case["index"], 0)
    b, roi_b = run(other)
    check(roi_b.sum() == roi.sum(), "wrong region of interest")
    for i, (x, y) in enumerate(zip(a, b)):
        y = {k: v[..., pr : pr + rows, pc : pc + cols] for k, v in y.items()}
        bad = full.identical(x, y, roi)
        check(not bad, f"{bad[:6]} differ in step {i} if the grid is padded with {pr} rows and {pc} columns")
    rec.label(*full.labels(case))
    rec.nt(np.any(a[-1]["snow.swe"][roi] > 0))


sub("C11", "padding", padding_cases, quick=110, thorough=1200, budget=25, rule="there is snow at the end")(padding)


@st.composite
def permutation_cases(draw):
    case = draw(independent_case(forcing="columns"))
    rows, cols = len(case["dem"]), len(case["dem"][0])
    case["dem"] = [[case["dem"][0][0]] * cols for _ in range(rows)]
    case["perm"] = draw(st.permutations(range(rows * cols)))
    return case


def permutation(case, rec):
    """Exchanging the inputs of pixels exchanges their results."""
    a, roi = run(case)
    perm = np.array(case["perm"])

    def move(g):
        g = np.array(g)
        return g.reshape(g.shape[:-2] + (-1,))[..., perm].reshape(g.shape)

    other = dict(case, grids={k: move(g).tolist() for k, g in case["grids"].items()}, index=move(case["index"]).tolist())
    b, _ = run(other)
    for i, (x, y) in enumerate(zip(a, b)):
        bad = full.identical({k: move(v) for k, v in x.items()}, y)
        check(not bad, f"{bad[:6]} are not exchanged with the inputs of the pixels in step {i}")
    rec.label(*full.labels(case))
    rec.nt(len(set(np.array(case["index"]).ravel().tolist())) > 1 and np.any(a[-1]["snow.swe"] > 0))


sub("C11", "permutation", permutation_cases, quick=110, thorough=1200, budget=25, rule="pixels with different weather, with snow at the end")(permutation)
