"""C15: terrain parameters."""
import numpy as np
from hypothesis import strategies as st

from openamundsen import terrain
from openamundsen.modules import radiation

from .. import gen, synth
from ..core import check, sub


@st.composite
def terrain_case(draw, max_size=9, nan=True):
    rows, cols = draw(st.integers(1, max_size)), draw(st.integers(1, max_size))
    relief = draw(st.sampled_from([20, 200, 1500]))
    dem = draw(gen.dem(rows, cols, lo=-100, relief=relief))
    nans = []
    if nan and draw(st.integers(0, 4)) == 0:
        nans = draw(st.lists(st.tuples(st.integers(0, rows - 1), st.integers(0, cols - 1)).map(list), max_size=4))
    return dict(
        dem=dem, nan=nans, res=draw(st.sampled_from([1, 10, 50, 1000])),
        L=draw(st.sampled_from([0.5, 1, 1.5, 2, 5, 20])), rot=draw(st.integers(1, 3)),
        offset=draw(st.integers(-300, 3000)), cell=[draw(st.integers(0, rows - 1)), draw(st.integers(0, cols - 1))],
        rise=draw(st.integers(1, 800)),
    )


def to_dem(case):
    dem = np.array(case["dem"], float)
    for i, j in case["nan"]:
        dem[i, j] = np.nan
    return dem


def horn(dem, res):
    p = np.pad(dem, 1, mode="edge")
    n = dem.shape
    w = lambda di, dj: p[1 + di:1 + di + n[0], 1 + dj:1 + dj + n[1]]  # noqa: E731
    gx = ((w(-1, 1) + 2 * w(0, 1) + w(1, 1)) - (w(-1, -1) + 2 * w(0, -1) + w(1, -1))) / (8 * res)
    # (rows run from north to south)
    gy = ((w(-1, -1) + 2 * w(-1, 0) + w(-1, 1)) - (w(1, -1) + 2 * w(1, 0) + w(1, 1))) / (8 * res)
    return gx, gy


def angdiff(a, b):
    return np.abs((a - b + 180) % 360 - 180)


def geometry(case, rec):
    dem, res = to_dem(case), float(case["res"])
    keep = dem.copy()
    slope, aspect = terrain.slope_aspect(dem, res)
    nv = terrain.normal_vector(dem, res)
    check(np.array_equal(dem, keep, equal_nan=True), "input modified")
    check(slope.shape == aspect.shape == dem.shape and nv.shape == (3, *dem.shape), "shapes")
    fin = np.isfinite(nv).all(axis=0)
    check(np.allclose(np.linalg.norm(nv, axis=0)[fin], 1, atol=1e-12), "normals are not unit vectors")
    check(np.all(nv[2][fin] > 0), "normals do not point upwards")
    if min(dem.shape) < 3:
        check(np.all(slope == 0) and np.all(nv[2] == 1), "tiny grids are treated as flat")
        return
    gx, gy = horn(dem, res)
    exp = np.rad2deg(np.arctan(np.hypot(gx, gy)))
    check(np.allclose(slope, exp, rtol=1e-9, atol=1e-9, equal_nan=True), f"slope\n{slope}\ninstead of\n{exp}")
    incl = np.hypot(gx, gy) > 1e-9
    # the aspect is the downslope direction, clockwise from north
    exp = np.rad2deg(np.arctan2(-gx, -gy)) % 360
    check(np.all(angdiff(aspect[incl], exp[incl]) < 1e-6), f"aspect\n{aspect}\ninstead of\n{exp}")
    check(np.all((aspect[incl] >= 0) & (aspect[incl] <= 360)), "aspect out of range")
    rec.nt(np.sum(incl) > 3)

    # normals: cell corners after Corripio (2003); x to the east, y to the north
    n = np.full(nv.shape, np.nan)
    z = dem
    for i in range(1, z.shape[0]):
        for j in range(z.shape[1] - 1):
            a, r, u, d = z[i, j], z[i, j + 1], z[i - 1, j], z[i - 1, j + 1]
            v = np.array([0.5 * res * (a - r + u - d), 0.5 * res * (a + r - u - d), res**2])
            n[:, i, j] = v / np.linalg.norm(v)
    n[:, 0, :] = n[:, 1, :]
    n[:, :, -1] = n[:, :, -2]
    check(np.allclose(nv, n, rtol=1e-9, atol=1e-12, equal_nan=True), f"normals\n{nv}\ninstead of\n{n}")
    d2 = np.diff(dem, axis=0), np.diff(dem, axis=1)
    if np.isfinite(dem).all() and all(np.ptp(d) == 0 for d in d2):
        v = np.array([-d2[1][0, 0] / res, d2[0][0, 0] / res, 1.0])
        v /= np.linalg.norm(v)
        check(np.allclose(nv, v[:, None, None], atol=1e-12), "normals of a plane")
        rec.label("plane")

    # relations
    s2, a2 = terrain.slope_aspect(np.rot90(dem, case["rot"]).copy(), res)
    check(np.allclose(s2, np.rot90(slope, case["rot"]), rtol=1e-9, atol=1e-9, equal_nan=True), "rotated slope")
    i2 = np.rot90(incl, case["rot"])
    check(np.all(angdiff(a2[i2], (np.rot90(aspect, case["rot"]) - 90 * case["rot"])[i2]) < 1e-6), "rotated aspect")
    s3, a3 = terrain.slope_aspect(dem + case["offset"], res)
    check(np.allclose(s3, slope, atol=1e-6, equal_nan=True), "slope depends on an elevation offset")
    check(np.allclose(terrain.normal_vector(dem + case["offset"], res), nv, atol=1e-9, equal_nan=True),
          "normals depend on an elevation offset")


sub("C15", "geometry", terrain_case, quick=2400, thorough=40000, budget=20,
    rule="more than three inclined pixels")(geometry)


def shift_ref(dem, di, dj):
    """Value of the pixel (i + di, j + dj), the edge value outside."""
    i = np.clip(np.arange(dem.shape[0])[:, None] + di, 0, dem.shape[0] - 1)
    j = np.clip(np.arange(dem.shape[1])[None, :] + dj, 0, dem.shape[1] - 1)
    return dem[i, j]


DIRS = [(1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1)]


def derived(case, rec):
    dem, res = to_dem(case), float(case["res"])
    L = case["L"] * res
    keep = dem.copy()
    curv = terrain.curvature(dem, res, "liston", L=L)
    n = int(np.ceil(case["L"]))
    exp = 0
    for (a, b), w in zip([(0, 4), (2, 6), (1, 5), (3, 7)], [1, 1, np.sqrt(2), np.sqrt(2)]):
        za = shift_ref(dem, DIRS[a][0] * n, DIRS[a][1] * n)
        zb = shift_ref(dem, DIRS[b][0] * n, DIRS[b][1] * n)
        exp = exp + 0.25 * (dem - 0.5 * (za + zb)) / (2 * w * L)
    check(np.allclose(curv, exp, rtol=1e-9, atol=1e-9, equal_nan=True), f"curvature\n{curv}\ninstead of\n{exp}")

    for negative in (False, True):
        z = -dem if negative else dem
        per_dir = []
        for k, (di, dj) in enumerate(DIRS):
            o = np.full(dem.shape, np.inf)
            for s in range(1, n + 1):
                i = np.arange(dem.shape[0])[:, None] + di * s
                j = np.arange(dem.shape[1])[None, :] + dj * s
                inside = (i >= 0) & (i < dem.shape[0]) & (j >= 0) & (j < dem.shape[1])
                zz = np.where(inside, z[np.clip(i, 0, dem.shape[0] - 1), np.clip(j, 0, dem.shape[1] - 1)], z)
                ang = np.pi / 2 - np.arctan2(zz - z, s * res * (np.sqrt(2) if k % 2 else 1))
                o = np.fmin(o, np.where(np.isnan(ang), np.inf, ang))
            per_dir.append(o)
        got = terrain.openness(dem, res, L, negative=negative)
        exp = np.mean(per_dir, axis=0)
        ok = np.isfinite(exp)
        check(np.allclose(got[ok], exp[ok], rtol=1e-9), f"openness\n{got}\ninstead of\n{exp}")
        each = terrain.openness(dem, res, L, negative=negative, mean=False)
        check(each.shape == (8, *dem.shape) and np.allclose(each[:, ok].mean(axis=0), got[ok]), "mean openness")
    check(np.array_equal(dem, keep, equal_nan=True), "input modified")
    rec.nt(np.nanstd(curv) > 0)


sub("C15", "curvature_openness", terrain_case, quick=800, thorough=15000, budget=20,
    rule="curvature varies")(derived)


def top_angle(dem, res):
    slope, _ = terrain.slope_aspect(dem, res)
    return 1 if np.isnan(slope).all() else max(int(np.ceil(np.nanmax(slope))), 1)


def ref_svf(dem, res, sweeps):
    top = top_angle(dem, res)
    out = np.zeros(dem.shape)
    for az in range(0, 360, 10):
        hor = np.full(dem.shape, float(top))
        for el in range(top, 0, -1):
            a, e = np.deg2rad(az), np.deg2rad(el)
            v = np.array([np.sin(a) * np.cos(e), -np.cos(a) * np.cos(e), np.sin(e)])
            hor[radiation.shadows(dem, res, v, num_sweeps=sweeps) == 1] = el
        out += np.cos(np.deg2rad(hor)) ** 2
    return out / 36


def sky_view(case, rec):
    dem, res = to_dem(case), float(case["res"])
    if np.isnan(dem).all():
        return
    svf = terrain.sky_view_factor(dem, res)
    check(svf.shape == dem.shape and np.all((svf >= 0) & (svf <= 1)), f"{svf}")
    if dem.size == 1:
        check(svf[0, 0] == 1, "single pixel")
        return
    exp = ref_svf(dem, res, 1)
    check(np.allclose(svf, exp, atol=1e-9), f"sky view factor\n{svf}\ninstead of\n{exp}")
    flat = terrain.sky_view_factor(np.zeros(dem.shape), res)
    check(np.all(flat >= 0.999), f"sky view factor {flat} of a plane")
    check(np.all(svf <= flat + 1e-9), "more sky visible than on open ground")
    top = dem == np.nanmax(dem)
    check(np.all(svf[top] >= flat[top] - 1e-9), f"sky view factor {svf[top]} at the highest point")
    rec.nt(svf.min() < 0.99)
    # higher terrain elsewhere never increases the visible sky
    i, j = case["cell"]
    up = dem.copy()
    up[i, j] += case["rise"]
    s2 = terrain.sky_view_factor(up, res)
    other = np.ones(dem.shape, bool)
    other[i, j] = False
    # (horizons are only searched for up to the steepest slope of the terrain)
    if top_angle(up, res) >= top_angle(dem, res):
        check(np.all(s2[other] <= svf[other] + 1e-9), f"raising {i},{j} increased the sky view factor\n{svf}\n{s2}")
    # (the shadow algorithm looks at discrete pixels: ties may be resolved differently)
    s3 = terrain.sky_view_factor(np.rot90(dem, case["rot"]).copy(), res)
    check(np.mean(np.abs(s3 - np.rot90(svf, case["rot"]))) < 0.02, "rotated sky view factor")
    s4 = terrain.sky_view_factor(dem[:, ::-1].copy(), res)
    check(np.mean(np.abs(s4 - svf[:, ::-1])) < 0.02, "mirrored sky view factor")
    s5 = terrain.sky_view_factor(dem + case["offset"], res)
    check(np.mean(np.abs(s5 - svf)) < 0.02, "sky view factor depends on an elevation offset")


sub("C15", "sky_view", lambda: terrain_case(max_size=7), quick=160, thorough=4000, budget=40,
    rule="terrain hides part of the sky")(sky_view)


@st.composite
def model_case(draw):
    case = draw(terrain_case(max_size=6))
    case["res"] = draw(st.sampled_from([10, 50, 1000]))
    case.update(start="2020-01-01 00:00", nsteps=1, timestep="h", columns=[[dict(n=1, t=270.0, p=0.0, rh=50.0,
                u=1.0, cf=0.5, cl=0.5)]])
    case["nan"] = [c for c in case["nan"] if c != [0, 0]]
    for i, j in case["nan"]:
        case["dem"][i][j] = None
    if draw(st.booleans()):
        case["grids"] = {"svf": [[draw(st.sampled_from([0.25, 0.5, 0.75, 1.0])) for _ in r] for r in case["dem"]]}
    return case


def in_model(case, rec):
    case = dict(case)
    case["dem"] = [[np.nan if v is None else v for v in r] for r in case["dem"]]
    dem = np.array(case["dem"], float)
    with synth.column_model(case) as model:
        b = model.state.base
        check(np.array_equal(b.dem, dem, equal_nan=True), "elevation model")
        slope, aspect = terrain.slope_aspect(dem, float(case["res"]))
        check(np.allclose(b.slope, slope, equal_nan=True) and np.allclose(b.aspect, aspect, equal_nan=True),
              "slope/aspect of the model")
        check(np.allclose(b.normal_vec, terrain.normal_vector(dem, float(case["res"])), equal_nan=True),
              "normals of the model")
        if "grids" in case:
            check(np.array_equal(b.svf, np.array(case["grids"]["svf"])), "sky view factor from file")
        else:
            exp = terrain.sky_view_factor(dem, float(case["res"]))
            check(np.allclose(b.svf, exp, atol=6e-4), f"sky view factor\n{b.svf}\n{exp}")
        keep = synth.snap(model, ["base.dem", "base.slope", "base.aspect", "base.svf", "base.normal_vec"])
        model.run_single()
        for k, v in keep.items():
            check(np.array_equal(synth.get(model, k), v, equal_nan=True), f"{k} changed during the run")
    rec.nt(np.nanstd(dem) > 0)


sub("C15", "in_model", model_case, quick=120, thorough=1500, budget=30, rule="not flat")(in_model)
