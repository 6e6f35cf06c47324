"""C16: heat conduction in snow and soil."""
import numpy as np
from hypothesis import strategies as st

from openamundsen import constants as c
from openamundsen import heatconduction, tridiag

from .. import gen, synth
from ..core import check, sub
from . import c01


@st.composite
def column(draw, nmax=7):
    n = draw(st.integers(1, nmax))
    layer = lambda s: draw(st.lists(s, min_size=n, max_size=n))  # noqa: E731
    uniform = draw(st.integers(0, 4)) == 0
    t = draw(gen.num(220, 320, 1))
    return dict(
        dx=layer(st.sampled_from([1e-5, 0.001, 0.05, 0.1, 0.37, 2.0])),
        T=[t] * n if uniform else layer(gen.num(220, 320, 1)),
        k=layer(st.sampled_from([0.02, 0.24, 0.5, 1.7, 2.2])),
        C=layer(st.sampled_from([1.0, 40.0, 2e3, 1.3e5, 4e6])),
        Tb=t if uniform else draw(gen.num(220, 320, 1)),
        dxb=draw(st.sampled_from([0.01, 0.1, 1.0])), kb=draw(st.sampled_from([0.05, 0.5, 2.0])),
        G=draw(st.one_of(st.just(0.0), gen.num(-400, 900, 1))),
        dt=draw(st.sampled_from([1.0, 600.0, 3600.0, 10800.0, 86400.0])),
    )


def conductances(dx, k, dxb, kb):
    r = np.append(np.asarray(dx) / k, dxb / kb)
    return 2 / (r[:-1] + r[1:])


def ref_solve(dx, dt, T, k, Tb, dxb, kb, G, C):
    """Backward Euler, fluxes between the layers at the new temperatures (dense solution)."""
    n = len(T)
    g = conductances(dx, k, dxb, kb)
    A = np.diag(np.asarray(C, float))
    b = np.asarray(C, float) * T
    b[0] += G * dt
    for i in range(n - 1):
        A[i, i] += g[i] * dt
        A[i, i + 1] -= g[i] * dt
        A[i + 1, i + 1] += g[i] * dt
        A[i + 1, i] -= g[i] * dt
    A[-1, -1] += g[-1] * dt
    b[-1] += g[-1] * dt * Tb
    return np.linalg.solve(A, b)


def budget(name, dx, dt, T, k, Tb, dxb, kb, G, C, Tnew):
    """Energy budget and extremum principle of one implicit step of one column."""
    g = conductances(dx, k, dxb, kb)
    gain = np.sum(C * (Tnew - T))
    bottom = g[-1] * (Tnew[-1] - Tb)
    scale = np.sum(np.abs(C * (Tnew - T))) + (abs(G) + abs(bottom)) * dt
    check(abs(gain - (G - bottom) * dt) <= 1e-7 * scale + 3e-10 * np.sum(C + g * dt),
          f"{name}: heat content changed by {gain} J m-2, fluxes amount to {(G - bottom) * dt}")
    # every layer has its own budget
    f = np.concatenate([[G], g[:-1] * (Tnew[:-1] - Tnew[1:]), [bottom]])
    res = C * (Tnew - T) - dt * (f[:-1] - f[1:])
    tol = 1e-6 * (np.abs(C * (Tnew - T)) + dt * (np.abs(f[:-1]) + np.abs(f[1:]))) + 1e-9 * (C + g * dt) * 300
    check(np.all(np.abs(res) <= tol), f"{name}: residuals of the layers {res}")
    lo, hi = min(T.min(), Tb), max(T.max(), Tb)
    if G <= 0:
        check(np.all(Tnew <= hi + 1e-6), f"{name}: {Tnew} warmer than all layers ({hi}) without heat supply")
    if G >= 0:
        check(np.all(Tnew >= lo - 1e-6), f"{name}: {Tnew} colder than all layers ({lo}) without heat loss")


def solver(case, rec):
    a = {k: np.array(v, float) if isinstance(v, list) else float(v) for k, v in case.items()}
    args = (a["dx"], a["dt"], a["T"], a["k"], a["Tb"], a["dxb"], a["kb"], a["G"], a["C"])
    keep = [np.copy(x) for x in args]
    dT = heatconduction.temp_change(*args)
    check(all(np.array_equal(x, y) for x, y in zip(args, keep)), "inputs modified")
    check(np.shape(dT) == a["T"].shape, "shape")
    exp = ref_solve(*args) - a["T"]
    scale = 1e-6 + 1e-7 * np.max(np.abs(exp))
    check(np.allclose(dT, exp, rtol=1e-6, atol=scale), f"temperature change {dT} instead of {exp}")
    budget("column", *args, a["T"] + dT)
    if a["G"] == 0 and np.ptp(np.append(a["T"], a["Tb"])) == 0:
        check(np.allclose(dT, 0, atol=1e-8), f"column in equilibrium changed by {dT}")
        rec.label("equilibrium")
    # arrays of columns: same result for each of them
    col = lambda x: np.stack([np.asarray(x), np.asarray(x)[::-1]], axis=1) if np.ndim(x) else np.array([x, x])  # noqa: E731
    aargs = [col(x) if i != 1 else x for i, x in enumerate(args)]
    dA = heatconduction.temp_change_array(*aargs)
    check(np.allclose(dA[:, 0], dT, rtol=1e-9, atol=1e-9), f"array solution {dA[:, 0]} instead of {dT}")
    d2 = heatconduction.temp_change(*[np.ascontiguousarray(x[:, 1]) if np.ndim(x) == 2 else (x[1] if np.ndim(x) else x)
                                      for x in aargs])
    check(np.allclose(dA[:, 1], d2, rtol=1e-9, atol=1e-9), "array solution of the reversed column")
    rec.label(f"{len(a['T'])} layers")
    rec.nt(len(a["T"]) > 1 and np.max(np.abs(dT)) > 0.01)


sub("C16", "solver", column, quick=4000, thorough=80000, budget=20,
    rule="several layers and a noticeable temperature change")(solver)


@st.composite
def tridiagonal(draw):
    n = draw(st.integers(1, 8))
    m = draw(st.integers(1, 3))
    v = lambda lo, hi: [[draw(gen.num(lo, hi)) for _ in range(m)] for _ in range(n)]  # noqa: E731
    return dict(a=v(-3, 3), b=v(0, 5), c=v(-3, 3), d=v(-100, 100))


def tridiagonal_solver(case, rec):
    a, b, cc, d = (np.array(case[k], float) for k in "abcd")
    a[0], cc[-1] = 0, 0
    b = b + 0.1 + np.abs(a) + np.abs(cc)  # diagonally dominant
    keep = [x.copy() for x in (a, b, cc, d)]
    x = tridiag.solve_tridiag_array(a, b, cc, d)
    for j in range(a.shape[1]):
        A = np.diag(b[:, j]) + np.diag(a[1:, j], -1) + np.diag(cc[:-1, j], 1)
        exp = np.linalg.solve(A, d[:, j])
        check(np.allclose(x[:, j], exp, rtol=1e-8, atol=1e-8), f"system {j}: {x[:, j]} instead of {exp}")
        y = tridiag.solve_tridiag(*(np.ascontiguousarray(v[:, j]) for v in (a, b, cc, d)))
        check(np.allclose(y, exp, rtol=1e-8, atol=1e-8), f"scalar: {y} instead of {exp}")
    check(all(np.array_equal(p, q) for p, q in zip(keep, (a, b, cc, d))), "inputs modified")
    rec.nt(len(a) > 2)


sub("C16", "tridiag", tridiagonal, quick=1500, thorough=20000, budget=15, rule="more than two equations")(
    tridiagonal_solver)


@st.composite
def model_case(draw):
    case = draw(c01.snow_case("multilayer", nsteps=(3, 20)))
    nl = draw(st.integers(1, 5))
    sand = draw(st.sampled_from([0.0, 0.3, 0.6, 0.9]))
    case["config"]["soil"] = dict(
        thickness=[draw(st.sampled_from([0.05, 0.1, 0.2, 0.8])) for _ in range(nl)],
        sand_fraction=sand, clay_fraction=draw(st.sampled_from([0.05, 0.1, 0.3])) if sand else 0.5,
        init_moisture_content=draw(st.sampled_from([0.5, 0.3, 1.0, 0.05, 0.0])),
        init_temp=draw(st.one_of(gen.num(253, 293, 1), st.sampled_from([273.15, 273.1, 272.5]))),
    )
    case["config"]["snow"]["thermal_conductivity"] = draw(st.sampled_from([0.1, 0.24, 0.5]))
    return case


def ref_soil(cfg, T, dz):
    """Soil properties after Cox et al. (1999) and the pedotransfer functions of the documentation."""
    sand, clay = cfg["sand_fraction"], cfg["clay_fraction"]
    b = 3.1 + 15.7 * clay - 0.3 * sand
    psi = 10 ** (0.17 - 0.63 * clay - 1.58 * sand)
    sat = 0.505 - 0.037 * clay - 0.142 * sand
    theta = cfg["init_moisture_content"] * sat
    dry_cap = (2.128e6 * sand + 2.385e6 * clay) / (sand + clay)
    minerals = 1.16**clay * 1.57 ** (1 - clay)
    kdry = 0.025**sat * minerals ** (1 - sat)
    if theta == 0:
        zero = np.zeros_like(T)
        return dict(theta=theta, sat=sat, unfrozen=zero, frozen=zero, cap=zero + dz * dry_cap, cond=zero + kdry)
    kappa = 917 / 1000 * 0.334e6 / (273.15 * 9.80665)
    tmax = 273.15 - psi / kappa * (sat / theta) ** b
    frozen = T < tmax
    arg = np.where(frozen, -kappa * (T - 273.15) / psi, 1.0)
    unfr = np.where(frozen, np.minimum(sat * arg ** (-1 / b), theta), theta)
    dth = np.where(frozen, kappa * sat / (b * psi) * arg ** (-1 / b - 1), 0.0)
    ice = (theta - unfr) * 1000 / 917
    cap = dz * (dry_cap + 1000 * 4180 * unfr + 917 * 2100 * ice
                + 1000 * ((4180 - 2100) * T + 0.334e6) * dth)
    liq = sat * unfr / theta
    ksat = kdry * 0.56**liq * 2.24 ** (sat - liq) / 0.025**sat
    cond = (ksat - kdry) * theta / sat + kdry
    return dict(theta=theta, sat=sat, unfrozen=unfr / sat, frozen=(theta - unfr) / sat, cap=cap, cond=cond)


def in_model(case, rec):
    with synth.column_model(case, dict(reset_state_variables=case["reset"])) as model:
        roi = model.grid.roi
        s = model.state
        rr, cc = np.nonzero(roi)
        dz = np.array(case["config"]["soil"]["thickness"])[:, None]
        log = []

        def around(fn):
            names = ["snow.temp", "snow.thickness", "snow.therm_cond", "snow.heat_cap", "snow.num_layers",
                     "surface.heat_flux", "soil.temp", "soil.therm_cond", "soil.thickness"]

            def wrapped():
                before = synth.snap(model, names)
                fn()
                log.append((before, synth.snap(model, names)))

            return wrapped

        model.snow.heat_conduction = around(model.snow.heat_conduction)
        frozen = snowy = deep = False
        for _ in range(case["nsteps"]):
            T0 = s.soil.temp[:, roi].copy()
            theta0 = s.soil.vol_moisture_content[:, roi].copy()
            model.run_single()
            # soil properties belong to the temperatures at the beginning of the step
            ref = ref_soil(case["config"]["soil"], T0, dz)
            for name, exp in dict(frac_unfrozen_moisture_content=ref["unfrozen"],
                                  frac_frozen_moisture_content=ref["frozen"], heat_cap=ref["cap"],
                                  therm_cond=ref["cond"]).items():
                got = s.soil[name][:, roi]
                check(np.allclose(got, exp, rtol=1e-7, atol=1e-10),
                      f"{model.date}: soil.{name} {got.T} instead of {np.asarray(exp).T} at {T0.T}")
            check(np.array_equal(s.soil.vol_moisture_content[:, roi], theta0), "soil moisture changed")
            tot = (s.soil.frac_unfrozen_moisture_content + s.soil.frac_frozen_moisture_content)[:, roi]
            check(np.allclose(tot * ref["sat"], ref["theta"], rtol=1e-9), "soil water is not conserved")
            check(np.all(s.soil.frac_frozen_moisture_content[:, roi][T0 >= 273.15] == 0), "frozen above T0")
            frozen |= bool(np.any(ref["frozen"] > 0))

            # heat conduction within the snow cover
            b, a = log.pop()
            same = [k for k in b if k != "snow.temp"]
            check(all(np.array_equal(a[k], b[k], equal_nan=True) for k in same), "heat conduction changed other states")
            for i, j in zip(rr, cc):
                n = int(b["snow.num_layers"][i, j])
                old, new = b["snow.temp"][:, i, j], a["snow.temp"][:, i, j]
                check(np.array_equal(old[n:], new[n:]), "temperature of a missing layer changed")
                if n > 0 and np.isfinite(b["surface.heat_flux"][i, j]):
                    p = (b["snow.thickness"][:n, i, j], model.timestep, old[:n], b["snow.therm_cond"][:n, i, j],
                         b["soil.temp"][0, i, j], b["soil.thickness"][0, i, j], b["soil.therm_cond"][0, i, j],
                         b["surface.heat_flux"][i, j], b["snow.heat_cap"][:n, i, j])
                    if np.all(p[0] > 1e-6):
                        budget(f"{model.date} snow [{i},{j}]", *p, new[:n])
                        snowy = True
                        deep |= n > 1

            # soil
            Tn = s.soil.temp[:, roi]
            G = s.soil.heat_flux[roi]
            check(np.all(np.isfinite(Tn)), "soil temperature")
            for q in range(len(rr)):
                if not np.isfinite(G[q]):
                    check(np.array_equal(Tn[:, q], T0[:, q]), "soil temperature changed without a heat flux")
                    continue
                budget(f"{model.date} soil pixel {q}", dz[:, 0], model.timestep, T0[:, q], ref["cond"][:, q],
                       T0[-1, q], dz[-1, 0], ref["cond"][-1, q], G[q], ref["cap"][:, q], Tn[:, q])
            # the heat flux into the soil is the surface heat flux or the one through the base of the snow cover
            n = s.snow.num_layers[roi]
            bare = n == 0
            check(np.allclose(G[bare], s.surface.heat_flux[roi][bare], equal_nan=True), "soil heat flux, bare")
            for q in np.flatnonzero(n > 0):
                i, j, m = rr[q], cc[q], int(n[q]) - 1
                g = 2 / (s.snow.thickness[m, i, j] / s.snow.therm_cond[m, i, j] + dz[0, 0] / ref["cond"][0, q])
                exp = g * (s.snow.temp[m, i, j] - T0[0, q])
                check(np.isclose(G[q], exp, rtol=1e-7, atol=1e-7), f"soil heat flux {G[q]} instead of {exp}")
        rec.label(*(["frozen"] if frozen else []), *(["snow"] if snowy else []), *(["several layers"] if deep else []))
        rec.nt(snowy)


sub("C16", "in_model", model_case, quick=240, thorough=5000, budget=40, rule="heat conducted in a snow cover")(in_model)
