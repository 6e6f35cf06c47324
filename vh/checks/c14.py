"""C14: sun position, cast shadows and clear-sky shortwave radiation."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from openamundsen.modules import radiation
from openamundsen import meteo as oameteo

from .. import gen, synth
from ..core import check, sub

T0 = 273.15


# ---------------------------------------------------------------- sun position
def ephemeris(utc):
    """Declination (deg) and equation of time (min) after the Astronomical Almanac (low precision)."""
    n = (utc - pd.Timestamp("2000-01-01 12:00")) / pd.Timedelta("1D")
    L = (280.460 + 0.9856474 * n) % 360
    g = np.deg2rad((357.528 + 0.9856003 * n) % 360)
    lam = np.deg2rad(L + 1.915 * np.sin(g) + 0.020 * np.sin(2 * g))
    eps = np.deg2rad(23.439 - 4e-7 * n)
    dec = np.rad2deg(np.arcsin(np.sin(eps) * np.sin(lam)))
    ra = np.rad2deg(np.arctan2(np.cos(eps) * np.sin(lam), np.cos(lam))) % 360
    eot = 4 * ((L - ra + 180) % 360 - 180)
    return dec, eot


@st.composite
def sun_case(draw):
    return dict(
        year=draw(st.integers(1990, 2049)), doy=draw(st.integers(1, 365)),
        minute=draw(st.integers(0, 1439)),
        lat=draw(gen.num(-70, 80, 1)), lon=draw(gen.num(-180, 180, 1)),
        tz=draw(st.integers(-12, 14)), shift=draw(st.integers(-6, 6)),
    )


def sun_position(case, rec):
    tz = case["tz"]
    date = pd.Timestamp(case["year"], 1, 1) + pd.Timedelta(days=case["doy"] - 1, minutes=case["minute"])
    p = radiation.sun_parameters(date, case["lon"], case["lat"], tz)
    utc = date - pd.Timedelta(hours=tz)
    sv = np.asarray(p["sun_vector"], float)
    check(abs(np.linalg.norm(sv) - 1) < 1e-12, "sun vector is not a unit vector")
    dec, eot = ephemeris(utc)
    check(abs(p["declination_angle"] - dec) < 0.7, f"declination {p['declination_angle']} vs {dec}")
    check(abs(p["equation_of_time"] - eot) < 1.2, f"equation of time {p['equation_of_time']} vs {eot}")
    h = (utc - utc.normalize()) / pd.Timedelta("1h")
    ha = 15 * (h - 12) + case["lon"] + eot / 4
    d = (p["hour_angle"] - ha + 180) % 360 - 180
    check(abs(d) < 0.4, f"hour angle {p['hour_angle']} vs {ha}")
    la, de, H = np.deg2rad([case["lat"], dec, ha])
    cosz = np.sin(la) * np.sin(de) + np.cos(la) * np.cos(de) * np.cos(H)
    check(abs(sv[2] - cosz) < 0.02, f"cos(zenith) {sv[2]} vs {cosz}")
    # x to the east, y to the south
    east = -np.cos(de) * np.sin(H)
    south = np.sin(la) * np.cos(de) * np.cos(H) - np.cos(la) * np.sin(de)
    check(abs(sv[0] - east) < 0.02 and abs(sv[1] - south) < 0.02, f"sun vector {sv} vs {east} {south}")
    check(abs(np.rad2deg(np.arccos(np.clip(sv[2], -1, 1))) - p["zenith_angle"]) < 1e-6, "zenith angle")
    check(bool(p["sun_over_horizon"]) == bool(p["zenith_angle"] < 90), "sun over the horizon")
    # the same instant in another time zone
    date2 = date + pd.Timedelta(hours=case["shift"])
    if date2.dayofyear == date.dayofyear:
        p2 = radiation.sun_parameters(date2, case["lon"], case["lat"], tz + case["shift"])
        check(np.allclose(p2["sun_vector"], sv, atol=1e-12), "the time zone matters")
        rec.nt(case["shift"] != 0)
    rec.label("day" if p["sun_over_horizon"] else "night")


sub("C14", "sun_position", sun_case, quick=3000, thorough=60000, budget=15,
    rule="also expressed in another time zone")(sun_position)


# ---------------------------------------------------------------- shadows
def ref_shadows(dem, res, azim, elev_tan, sun_vec, sweeps):
    """Scan lines towards the anti-solar direction; returns (illuminated, ambiguous)."""
    rows, cols = dem.shape
    illum = np.ones(dem.shape, bool)
    amb = np.zeros(dem.shape, bool)
    m = max(abs(sun_vec[0]), abs(sun_vec[1]))
    sx, sy = -sun_vec[0] / m, -sun_vec[1] / m
    step = np.hypot(sx, sy) * res
    n = max(rows, cols) if sweeps == -1 else sweeps
    start = np.zeros(dem.shape, bool)
    if sun_vec[0] < 0:
        start[:, :n] = True
    else:
        start[:, -n:] = True
    if sun_vec[1] < 0:
        start[:n, :] = True
    else:
        start[-n:, :] = True
    for i, j in np.argwhere(start):
        line = []
        k = 0
        while True:
            fj, fi = j + sx * k, i + sy * k
            jj, ii = int(np.round(fj)), int(np.round(fi))
            if not (0 <= ii < rows and 0 <= jj < cols):
                break
            half = abs(abs(fj - np.floor(fj)) - 0.5) < 1e-9 or abs(abs(fi - np.floor(fi)) - 0.5) < 1e-9
            line.append((k, ii, jj, half))
            k += 1
        for a, (k, ii, jj, half) in enumerate(line):
            for kk, i2, j2, half2 in line[:a]:
                excess = dem[i2, j2] - dem[ii, jj] - (k - kk) * step * elev_tan
                if np.isnan(excess):
                    continue
                tol = 1e-6 * (1 + abs(dem[i2, j2]))
                if half or half2:
                    # which pixel is meant depends on rounding
                    amb[ii, jj] = True
                    amb[max(ii - 1, 0):ii + 2, max(jj - 1, 0):jj + 2] = True
                if abs(excess) <= tol:
                    amb[ii, jj] = True
                elif excess > 0:
                    illum[ii, jj] = False
    return illum, amb


@st.composite
def shadow_case(draw):
    rows, cols = draw(st.integers(1, 9)), draw(st.integers(1, 9))
    if draw(st.booleans()):
        dem = draw(gen.dem(rows, cols))
    else:
        base = draw(st.integers(0, 2000))
        dem = [[float(base)] * cols for _ in range(rows)]
        for _ in range(draw(st.integers(1, 3))):
            dem[draw(st.integers(0, rows - 1))][draw(st.integers(0, cols - 1))] = float(
                base + draw(st.integers(1, 900)))
    nan = []
    if draw(st.integers(0, 3)) == 0:
        nan = draw(st.lists(st.tuples(st.integers(0, rows - 1), st.integers(0, cols - 1)).map(list),
                            max_size=6))
    return dict(
        dem=dem, nan=nan, res=draw(st.sampled_from([10, 50, 100])),
        azim=draw(st.one_of(st.sampled_from([0, 45, 90, 135, 180, 225, 270, 315]), st.integers(0, 359))),
        elev=draw(st.integers(1, 85)), sweeps=draw(st.sampled_from([1, 1, 2, -1])),
        offset=draw(st.integers(-500, 2000)), higher=draw(st.integers(1, 30)),
    )


def sun_vec(azim, elev):
    a, e = np.deg2rad(azim), np.deg2rad(elev)
    v = np.array([np.sin(a) * np.cos(e), -np.cos(a) * np.cos(e), np.sin(e)])
    v[np.abs(v) < 1e-12] = 0.0
    return v


def shadows(case, rec):
    dem = np.array(case["dem"], float)
    for i, j in case["nan"]:
        dem[i, j] = np.nan
    sv = sun_vec(case["azim"], case["elev"])
    keep = dem.copy()
    got = radiation.shadows(dem, float(case["res"]), sv, num_sweeps=case["sweeps"])
    check(np.array_equal(dem, keep, equal_nan=True), "the elevation model was modified")
    check(got.shape == dem.shape and np.all((got == 0) | (got == 1)), f"{got}")
    tan = sv[2] / np.hypot(sv[0], sv[1])
    exp, amb = ref_shadows(dem, case["res"], case["azim"], tan, sv, case["sweeps"])
    bad = (got.astype(bool) != exp) & ~amb
    check(not np.any(bad), f"illumination\n{got}\ninstead of\n{exp.astype(int)} (sun {case['azim']}/{case['elev']})")
    if case["azim"] % 45 == 0:
        # rays through the centres of the pixels: every pixel towards the sun counts
        d = np.round(np.array([-np.cos(np.deg2rad(case["azim"])), np.sin(np.deg2rad(case["azim"]))]) * 1.5)
        d = np.clip(d, -1, 1).astype(int)
        dist = case["res"] * np.hypot(*d)
        for i in range(dem.shape[0]):
            for j in range(dem.shape[1]):
                k, blocked, close = 1, False, False
                while 0 <= i + k * d[0] < dem.shape[0] and 0 <= j + k * d[1] < dem.shape[1]:
                    ex = dem[i + k * d[0], j + k * d[1]] - dem[i, j] - k * dist * tan
                    blocked |= bool(ex > 1e-4)
                    close |= bool(abs(ex) <= 1e-4)
                    k += 1
                if np.isfinite(dem[i, j]) and (blocked or not close):
                    check(bool(got[i, j]) == (not blocked),
                          f"pixel {i},{j}: illuminated {got[i, j]}, terrain blocks the sun: {blocked}")
        rec.label("exact ray")
    off = radiation.shadows(dem + case["offset"], float(case["res"]), sv, num_sweeps=case["sweeps"])
    check(np.array_equal(off[~amb], got[~amb]), "an elevation offset changes the shadows")
    el2 = min(case["elev"] + case["higher"], 89)
    up = radiation.shadows(dem, float(case["res"]), sun_vec(case["azim"], el2), num_sweeps=case["sweeps"])
    check(not np.any((up == 0) & (got == 1) & ~amb), "a higher sun casts new shadows")
    if np.isfinite(dem).any():
        check(np.all(got[dem == np.nanmax(dem)] == 1), "the highest pixel is in the shadow")
    rec.nt(np.any(got == 0))
    if case["nan"]:
        rec.label("missing elevation")


sub("C14", "shadows", shadow_case, quick=4000, thorough=30000, budget=25, rule="some pixel is shaded")(shadows)


# ---------------------------------------------------------------- radiation in model runs
@st.composite
def radiation_case(draw):
    rows, cols = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    dem = draw(gen.dem(rows, cols, relief=draw(st.sampled_from([60, 600]))))
    nsteps = draw(st.integers(1, 4))
    case = dict(
        start=draw(gen.start_dates(hours=tuple(range(24)))),
        timestep=draw(st.sampled_from(["h", "3h", "30min"])),
        nsteps=nsteps, res=draw(st.sampled_from([20, 100])), dem=dem,
        timezone=draw(st.sampled_from([0, 1, 2])),
        columns=[[dict(n=1, t=round(T0 + draw(gen.num(-20, 25)), 2), p=draw(gen.sparse(2, gen.num(0, 5))),
                       rh=draw(gen.num(5, 100, 1)), u=2.0, cf=draw(gen.num(0.1, 1)), cl=0.5)
                  for _ in range(nsteps)] for _ in range(draw(st.integers(1, 3)))],
    )
    rad = dict(num_shadow_sweeps=draw(st.sampled_from([1, 2, -1])))
    if draw(st.booleans()):
        rad.update(ozone_layer_thickness=draw(st.sampled_from([0.002, 0.0045])),
                   atmospheric_visibility=draw(st.sampled_from([10000.0, 60000.0])),
                   single_scattering_albedo=draw(st.sampled_from([0.8, 0.95])),
                   clear_sky_albedo=draw(st.sampled_from([0.05, 0.1])))
    if draw(st.integers(0, 3)) == 0:
        rad["shadows_downsampling_factor"] = draw(st.integers(2, 3))
    case["config"] = dict(meteo=dict(radiation=rad),
                          snow=dict(model=draw(st.sampled_from(["multilayer", "cryolayers"]))))
    if draw(st.integers(0, 2)) == 0:
        case["config"]["simulation_timezone"] = draw(st.integers(-3, 4))
    if draw(st.integers(0, 2)) == 0:
        pad = [draw(st.integers(0, 3)) for _ in range(4)]
        base = int(min(map(min, dem)))
        ext = [[float(base + draw(st.integers(0, 800))) for _ in range(cols + pad[2] + pad[3])]
               for _ in range(rows + pad[0] + pad[1])]
        for i in range(rows):
            ext[pad[0] + i][pad[2]:pad[2] + cols] = dem[i]
        case["ext"] = dict(pad=pad, dem=ext)
    if rows * cols > 2 and draw(st.booleans()):
        case["grids"] = {"roi": [
            [int(draw(st.integers(0, 3)) > 0 or (i, j) == (0, 0)) for j in range(cols)] for i in range(rows)]}
    return case


def corripio(day_angle, sv, sunlit, dem, svf, normal, press, pw, albedo, roi, rad):
    """Clear-sky radiation after Corripio (2002); all arguments are vectors over the region."""
    z = np.arccos(sv[2])
    ecc = (1.000110 + 0.034221 * np.cos(day_angle) + 0.001280 * np.sin(day_angle)
           + 0.000719 * np.cos(2 * day_angle) + 0.000077 * np.sin(2 * day_angle))
    toa = 1366.1 * ecc
    mr = min(1 / (np.cos(z) + 0.15 * (93.885 - np.rad2deg(z)) ** -1.253), 14.1952)
    ma = mr * press / 101325.0
    lm = rad.get("ozone_layer_thickness", 0.0035) * 100 * mr
    wm = pw / 10 * mr
    t_r = np.exp(-0.0903 * ma**0.84) * (1 + ma - ma**1.01)
    t_o = 1 - (0.1611 * lm * (1 + 139.48 * lm) ** -0.3035 - 0.002715 * lm / (1 + 0.044 * lm + 3e-4 * lm**2))
    t_g = np.exp(-0.0127 * ma**0.26)
    t_w = 1 - 2.4959 * wm / ((1 + 79.034 * wm) ** 0.6828 + 6.385 * wm)
    t_a = (0.97 - 1.265 * (rad.get("atmospheric_visibility", 25000.0) / 1000) ** -0.66) ** (ma**0.9)
    t_aa = 1 - (1 - rad.get("single_scattering_albedo", 0.9)) * (1 - ma + ma**1.06) * (1 - t_a)
    t_dir = np.clip(t_r * t_o * t_g * t_w * t_a + 2.2e-5 * np.minimum(dem, 3000), 0, 1)
    cos_i = np.clip(normal @ sv * np.array(1.0), 0, None)
    direct = 0.9751 * toa * cos_i * sunlit * t_dir
    common = 0.79 * toa * np.cos(z) * t_o * t_g * t_w * t_aa / (1 - ma + ma**1.02)
    fs = -0.2562 * z**2 + 0.1409 * z + 0.9067
    ratio = t_a / t_aa
    diff = common * (0.5 * (1 - t_r) + fs * (1 - ratio))
    alb_a = rad.get("clear_sky_albedo", 0.0685) + (1 - fs) * (1 - ratio)
    diff = diff + (direct * np.cos(z) + diff) * albedo * alb_a / (1 - albedo * alb_a)
    lit = sunlit == 1
    mean_i = cos_i[lit].mean() if lit.any() else 0.0
    refl = (1 - svf) * (toa * cos_i * sunlit * t_dir * sunlit.mean() * mean_i + diff) * albedo
    return toa, cos_i, direct, diff * svf + refl


def clear_sky(case, rec):
    rad = case["config"]["meteo"]["radiation"]
    dates = synth.dates_of(case)
    stz = case["config"].get("simulation_timezone")
    with synth.column_model(case) as model:
        g, b, m = model.grid, model.state.base, model.state.meteo
        roi = g.roi
        cx = synth.X0 + len(case["dem"][0]) * case["res"] / 2
        cy = synth.Y0 + len(case["dem"]) * case["res"] / 2
        lon, lat = synth.lonlat(cx, cy)
        dem = np.array(case["dem"], float)
        albedo = model.state.surface.albedo[roi].copy()
        for i in range(case["nsteps"]):
            model.run_single()
            date = dates[i]
            if stz is not None:
                date = date + pd.Timedelta(hours=case["timezone"] - stz)
            p = radiation.sun_parameters(date, lon, lat, case["timezone"])
            sv = np.asarray(p["sun_vector"])
            tot, dr, df = (m[k][roi] for k in ("sw_in_clearsky", "dir_in_clearsky", "diff_in_clearsky"))
            check(np.all(np.isfinite(tot)) and np.all(dr >= 0) and np.all(df >= 0), f"{date}: {dr} {df}")
            check(np.allclose(tot, dr + df, rtol=1e-12, atol=1e-12), "direct + diffuse != total")
            if abs(p["zenith_angle"] - 90) < 0.05:
                albedo = model.state.surface.albedo[roi].copy()
                continue
            if p["zenith_angle"] > 90:
                check(np.all(tot == 0), f"{date}: {tot} W m-2 at night")
                rec.label("night")
            else:
                f = rad.get("shadows_downsampling_factor", 1)
                full = np.array(case["ext"]["dem"], float) if "ext" in case else dem
                sd = full[::f, ::f]
                tan = sv[2] / np.hypot(sv[0], sv[1])
                lit, amb = ref_shadows(sd, case["res"] * f, None, tan, sv, rad["num_shadow_sweeps"])
                if f > 1:
                    lit = lit.repeat(f, 0).repeat(f, 1)[: full.shape[0], : full.shape[1]]
                    amb = amb.repeat(f, 0).repeat(f, 1)[: full.shape[0], : full.shape[1]]
                if "ext" in case:
                    r0, c0 = case["ext"]["pad"][0], case["ext"]["pad"][2]
                    lit, amb = (v[r0:r0 + dem.shape[0], c0:c0 + dem.shape[1]] for v in (lit, amb))
                    rec.label("extended")
                a = albedo.mean()
                a = 0.15 if np.isnan(a) else a
                n = b.normal_vec[:, roi].T * np.array([1, -1, 1])  # y axis to the south
                toa, cos_i, ed, ef = corripio(
                    p["day_angle"], sv, lit[roi].astype(float), dem[roi], b.svf[roi], n,
                    oameteo.atmospheric_pressure(dem[roi]), m.precipitable_water[roi], a, roi, rad)
                check(np.all(dr <= toa * cos_i + 1e-9), f"{date}: direct radiation {dr} above extraterrestrial")
                check(np.all(tot <= toa * 1.0), f"{date}: radiation {tot} above extraterrestrial {toa}")
                ok = ~amb[roi]
                dark = ok & (~lit[roi] | (cos_i <= 0))
                check(np.all(dr[dark] == 0), f"{date}: direct radiation {dr} in the shadow")
                check(np.allclose(dr[ok], ed[ok], rtol=1e-7, atol=1e-6), f"{date}: direct {dr} instead of {ed}")
                if not np.any(amb[roi]):
                    check(np.allclose(df, ef, rtol=1e-7, atol=1e-6), f"{date}: diffuse {df} instead of {ef}")
                rec.nt(np.ptp(dr) > 1)
                rec.label("day", "shadow" if np.any(dark) else "sunlit")
            # without stations, global radiation is the clear-sky radiation times the cloud factor
            check(np.allclose(m.sw_in[roi], tot * m.cloud_factor[roi], rtol=1e-12, atol=0), "global radiation")
            albedo = model.state.surface.albedo[roi].copy()


sub("C14", "clear_sky", radiation_case, quick=640, budget=45,
    rule="direct radiation differs between the pixels")(clear_sky)
