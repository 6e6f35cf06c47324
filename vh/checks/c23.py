"""C23: state variables keep their identity, type, shape and metadata over a run."""
import numpy as np
from hypothesis import strategies as st

from openamundsen import errors
from openamundsen.statevars import StateVariableManager

from .. import full, synth
from ..core import check, sub

DTYPES = {"float": float, "int": int, "bool": bool}
INIT = {"float": np.nan, "int": 0, "bool": False}
VALUES = {"float": [0.0, -1.5, 1e300, float("nan"), float("inf")], "int": [0, -3, 2**40], "bool": [True, False]}


@st.composite
def histories(draw):
    """Operations on a state variable manager."""
    rows, cols = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    names = ["a", "b", "temp", "x1"]
    ops = []
    for c in draw(st.lists(st.sampled_from(["base", "meteo", "snow", "my_cat", "snow", "1x", "a b", "class-x"]), min_size=1, max_size=5)):
        ops.append(dict(op="category", name=c))
        for n in draw(st.lists(st.sampled_from(names), max_size=3, unique=True)):
            ops.append(
                dict(
                    op="variable", category=c, name=n, dtype=draw(st.sampled_from(list(DTYPES))), dim3=draw(st.sampled_from([0, 0, 1, 3])),
                    retain=draw(st.booleans()), units=draw(st.sampled_from([None, "K"])), long_name=draw(st.sampled_from([None, "Foo"])),
                    standard_name=draw(st.sampled_from([None, "air_temperature"])),
                )
            )
    ops.append(dict(op="initialize"))
    for _ in range(draw(st.integers(0, 12))):
        if draw(st.integers(0, 2)) == 0:
            ops.append(dict(op="reset"))
        else:
            ops.append(dict(op="write", which=draw(st.integers(0, 20)), value=draw(st.integers(0, 4)), pos=draw(st.integers(0, 47)), how=draw(st.sampled_from(["fill", "cell", "attribute", "item"]))))
    return dict(rows=rows, cols=cols, ops=ops)


def manager(case, rec):
    m = StateVariableManager(case["rows"], case["cols"])
    defs, ref = {}, {}
    cats = []
    resets = writes = 0
    for op in case["ops"]:
        if op["op"] == "category":
            ok = op["name"].isidentifier() and op["name"] not in cats
            try:
                c = m.add_category(op["name"])
            except errors.CategoryError:
                check(not ok, f"category {op['name']} rejected")
                continue
            check(ok, f"category {op['name']!r} accepted")
            cats.append(op["name"])
            check(m[op["name"]] is c, "category container")
            check(tuple(m.categories) == tuple(sorted(cats)), f"categories {m.categories}")
        elif op["op"] == "variable":
            key = f"{op['category']}.{op['name']}"
            if op["category"] not in cats or key in defs:
                continue
            m[op["category"]].add_variable(
                op["name"], op["units"], op["long_name"], op["standard_name"], dtype=DTYPES[op["dtype"]], dim3=op["dim3"], retain=op["retain"]
            )
            defs[key] = op
        elif op["op"] == "initialize":
            m.initialize()
            for key, d in defs.items():
                shape = (case["rows"], case["cols"]) if d["dim3"] == 0 else (d["dim3"], case["rows"], case["cols"])
                ref[key] = np.full(shape, INIT[d["dtype"]], dtype=DTYPES[d["dtype"]])
        elif op["op"] == "write":
            if not defs:
                continue
            key = list(defs)[op["which"] % len(defs)]
            vals = VALUES[defs[key]["dtype"]]
            v = vals[op["value"] % len(vals)]
            if op["how"] in ("attribute", "item"):
                # the variable gets a new array (as by s.meteo.temp = ...)
                c, n = key.split(".")
                new = np.full(ref[key].shape, v, dtype=ref[key].dtype)
                if op["how"] == "item":
                    m[c][n] = new
                else:
                    setattr(m[c], n, new)
                ref[key][:] = v
            else:
                for arr in (m[key], ref[key]):
                    if op["how"] == "fill":
                        arr[:] = v
                    else:
                        arr.flat[op["pos"] % arr.size] = v
            writes += 1
        else:
            m.reset()
            for key, d in defs.items():
                if not d["retain"]:
                    ref[key][:] = INIT[d["dtype"]]
            resets += 1
        for key, r in ref.items():
            a = m[key]
            c, n = key.split(".")
            check(a is getattr(m[c], n) and a is m[c][n], f"{key}: different arrays for the same variable")
            check(a.dtype == r.dtype and a.shape == r.shape, f"{key}: {a.dtype} {a.shape} instead of {r.dtype} {r.shape}")
            check(np.array_equal(a, r, equal_nan=a.dtype.kind == "f"), f"{key} after {op['op']}: {a.tolist()} instead of {r.tolist()}")
            meta, d = m.meta(key), defs[key]
            for k in ("units", "long_name", "standard_name", "dim3", "retain"):
                check(getattr(meta, k) == d[k], f"{key}: {k} is {getattr(meta, k)}")
            check(meta.dtype == DTYPES[d["dtype"]], f"{key}: dtype {meta.dtype}")
    rec.nt(resets > 0 and writes > 0 and len(defs) > 1)


sub("C23", "manager", histories, quick=400, thorough=8000, budget=20, rule="at least two variables, a write and a reset")(manager)


# ---------------------------------------------------------------- simulations
def declared(model):
    out = {}
    for c in model.state.categories:
        svc = model.state[c]
        for n in svc:
            if not n.startswith("_") and isinstance(svc[n], np.ndarray):
                out[f"{c}.{n}"] = model.state.meta(f"{c}.{n}")
    return out


def check_types(model, metas):
    now = declared(model)
    check(set(now) == set(metas), f"state variables changed: {set(now) ^ set(metas)}")
    for k, meta in metas.items():
        a = model.state[k]
        shape = model.grid.shape if meta.dim3 == 0 else (meta.dim3, *model.grid.shape)
        check(tuple(a.shape) == tuple(shape), f"{k} has shape {a.shape} instead of {shape}")
        check(a.dtype == np.dtype(meta.dtype), f"{k} has dtype {a.dtype} instead of {meta.dtype}")
        check(now[k] == meta, f"metadata of {k} changed")


def resetting(case, rec):
    """The same simulation with and without clearing the transient variables before every step."""
    with full.open_model(case, dict(reset_state_variables=False)) as a, full.open_model(case, dict(reset_state_variables=True)) as b:
        metas = declared(a)
        check(set(metas) == set(declared(b)), "state variables")
        for k, meta in metas.items():
            # (every registered variable exists)
            check(meta.long_name, f"{k} has no description")
        for i in range(case["nsteps"]):
            before = {k: v for k, v in synth.all_vars(b).items() if metas[k].retain}
            if i % 2 == 0:
                b.state.reset()
                after = synth.all_vars(b)
                for k, v in before.items():
                    check(np.array_equal(v, after[k], equal_nan=v.dtype.kind == "f"), f"{k} was changed by a reset")
                for k, v in after.items():
                    if not metas[k].retain:
                        check(np.all(np.isnan(v)) if v.dtype.kind == "f" else not np.any(v), f"{k} was not cleared by a reset")
            a.run_single()
            b.run_single()
            for m in (a, b):
                check_types(m, metas)
            sa, sb = synth.all_vars(a), synth.all_vars(b)
            keep = list(metas)
            bad = full.identical({k: sa[k] for k in keep}, {k: sb[k] for k in keep}, a.grid.roi)
            check(not bad, f"step {i}: clearing transient variables changes {bad[:5]}")
    rec.label(*full.labels(case))
    rec.nt(case["nsteps"] > 2)


sub("C23", "resetting", lambda: full.full_case(missing=0), quick=140, thorough=900, budget=40, rule="more than two time steps")(resetting)
sub("C23", "resetting_gaps", lambda: full.full_case(missing=6, nsteps=(4, 12)), quick=80, thorough=600, budget=30, rule="more than two time steps")(resetting)
