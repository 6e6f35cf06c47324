"""C27: the compiled kernels compute what their source says, within the bounds of their arrays."""
import contextlib
import functools
import importlib
import pkgutil
import sys

import numba
import numpy as np
from hypothesis import strategies as st
from numba.core.dispatcher import Dispatcher

import openamundsen
from openamundsen import terrain
from openamundsen.modules import radiation

from .. import full
from ..core import check, sub
from . import c15, c16

for _m in pkgutil.walk_packages(openamundsen.__path__, "openamundsen."):
    if not _m.name.startswith("openamundsen.liveview"):
        with contextlib.suppress(ImportError):
            importlib.import_module(_m.name)


def snapshot(x):
    """Copy of an argument or result (arrays keep their memory order)."""
    if isinstance(x, np.ndarray):
        return x.copy(order="K")
    if isinstance(x, (tuple, list)):
        return type(x)(snapshot(v) for v in x)
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    return x


def flatten(x):
    if isinstance(x, (tuple, list)):
        return [z for v in x for z in flatten(v)]
    return [x]


def same(a, b):
    """Equality up to rounding (the compiler may use other implementations of exp, sin, ...)."""
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
        return a.shape == b.shape and bool(np.all(a == b))
    if a.shape != b.shape:
        return False
    if a.dtype.kind != "f" and b.dtype.kind != "f":
        return bool(np.array_equal(a, b))
    with np.errstate(all="ignore"):
        finite = a[np.isfinite(a)] if a.dtype.kind == "f" else a
        scale = np.max(np.abs(finite), initial=0)
        return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12 * scale + 1e-12, equal_nan=True))


def between(x, lo, hi):
    x, lo, hi = (np.asarray(v, float) for v in (x, lo, hi))
    if x.shape != lo.shape:
        return False
    with np.errstate(all="ignore"):
        tol = 1e-9 * np.abs(lo) + 1e-9 * np.abs(hi) + 1e-12
        undefined = np.isnan(lo) | np.isnan(hi)
        return bool(np.all(undefined | ((x >= lo - 10 * (hi - lo) - tol) & (x <= hi + 10 * (hi - lo) + tol)) | (np.isinf(x) & ((x == lo) | (x == hi)))))


class Interpreter:
    """
    Replaces every compiled function of the package by a wrapper which runs both the compiled
    code and, on a copy of the arguments, the Python source with the interpreter (where NumPy checks the
    array bounds and loops are sequential), and compares results and modified arguments.
    threads_only: compare with the compiled code in a single thread instead (for large grids).
    """

    def __init__(self, threads_only=False):
        self.threads_only = threads_only
        self.repetitions = 2
        self.calls = {}
        self.inside = False
        self.ill_conditioned = 0

    def interpret(self, fn, args, kwargs):
        """Results and arguments after the call of the reference implementation."""
        if self.threads_only:
            self.patch(False)
            with threads(1):
                out = fn(*args, **kwargs)
            self.patch(True)
            return flatten(out) + flatten(list(args) + list(kwargs.values()))
        self.inside = True
        try:
            with np.errstate(all="ignore"):
                out = fn.py_func(*args, **kwargs)
        except IndexError as e:
            check(False, f"{fn.py_func.__name__} accesses an element out of bounds: {e}")
        finally:
            self.inside = False
        return flatten(out) + flatten(list(args) + list(kwargs.values()))

    def wrap(self, fn):
        name = fn.py_func.__name__

        @functools.wraps(fn.py_func)
        def both(*args, **kwargs):
            if self.inside:
                return fn.py_func(*args, **kwargs)
            before = snapshot((args, kwargs))
            exp = self.interpret(fn, *snapshot(before))
            self.patch(False)  # (the compiler must see the original functions)
            try:
                out = fn(*args, **kwargs)
            finally:
                self.patch(True)
            got = flatten(out) + flatten(list(args) + list(kwargs.values()))
            self.compare(fn, before, got, exp)
            if self.threads_only and fn.targetoptions.get("parallel"):
                # races are rare: repeat
                for _ in range(self.repetitions):
                    a, k = snapshot(before)
                    self.patch(False)
                    out2 = fn(*a, **k)
                    self.patch(True)
                    self.compare(fn, before, flatten(out2) + flatten(list(a) + list(k.values())), exp)
            first = flatten(list(before[0]) + list(before[1].values()))
            n = self.calls.setdefault(name, [0, 0])
            n[0] += 1
            n[1] += not all(same(x, y) for x, y in zip(first, got[-len(first):]))
            return out

        return both

    def compare(self, fn, before, got, exp):
        name = fn.py_func.__name__
        check(len(got) == len(exp), f"{name}: number of results")
        if all(same(x, y) for x, y in zip(got, exp)):
            return
        self.ill_conditioned += 1
        lo, hi = self.sensitivity(fn, before, exp)
        for i, (x, y) in enumerate(zip(got, exp)):
            check(same(x, y) or between(x, lo[i], hi[i]),
                  f"{name}: compiled code gives {x}, "
                  f"{'a single thread' if self.threads_only else 'interpreted'} {y} (result or argument {i})")

    def sensitivity(self, fn, before, exp, repetitions=24):
        """Range of the interpreted results if the inputs are changed by rounding errors (ties!)."""
        rng = np.random.default_rng(1)

        def shake(x):
            if isinstance(x, (tuple, list)):
                return type(x)(shake(v) for v in x)
            if isinstance(x, dict):
                return {k: shake(v) for k, v in x.items()}
            if isinstance(x, float) or (isinstance(x, np.ndarray) and x.dtype.kind == "f"):
                y = x * (1 + 1e-12 * rng.standard_normal(np.shape(x)))
                if not isinstance(x, np.ndarray):
                    return float(y)
                scale = np.max(np.abs(x[np.isfinite(x)]), initial=0)
                return (y + 1e-13 * scale * rng.standard_normal(np.shape(x))).astype(x.dtype)
            return snapshot(x)

        lo = [snapshot(x) for x in exp]
        hi = [snapshot(x) for x in exp]
        for _ in range(repetitions):
            r = self.interpret(fn, *shake(before))
            for i, x in enumerate(r):
                if np.asarray(x).dtype.kind in "fiub" and np.shape(x) == np.shape(lo[i]):
                    lo[i] = np.minimum(lo[i], x)  # (nan if undefined in one of them)
                    hi[i] = np.maximum(hi[i], x)
        return lo, hi

    @contextlib.contextmanager
    def installed(self):
        wrappers = {}
        self.places = []
        for mname, mod in list(sys.modules.items()):
            if mod is None or not (mname == "openamundsen" or mname.startswith("openamundsen.")):
                continue
            for attr, fn in list(vars(mod).items()):
                if isinstance(fn, Dispatcher):
                    if id(fn) not in wrappers:
                        wrappers[id(fn)] = self.wrap(fn)
                    self.places.append((mod, attr, fn, wrappers[id(fn)]))
        self.patch(True)
        try:
            yield self
        finally:
            self.patch(False)

    def patch(self, on):
        for mod, attr, fn, wrapper in self.places:
            setattr(mod, attr, wrapper if on else fn)


@contextlib.contextmanager
def threads(n):
    before = numba.get_num_threads()
    numba.set_num_threads(max(1, min(n, numba.config.NUMBA_NUM_THREADS)))
    try:
        yield
    finally:
        numba.set_num_threads(before)


# ---------------------------------------------------------------- whole simulations
@st.composite
def simulation_cases(draw):
    size = draw(st.sampled_from([2, 4, 9]))
    case = draw(full.full_case(nsteps=(2, 8), max_rows=size, max_cols=size, missing=draw(st.sampled_from([0, 0, 6]))))
    if draw(st.booleans()):
        # a snow cover with filled layers at the beginning of the run
        for col in case.get("columns", []):
            col.insert(0, dict(n=1, t=draw(st.sampled_from([262.0, 270.0])), p=draw(st.sampled_from([5.0, 40.0, 90.0])), rh=90.0, u=2.0, cf=0.2, cl=0.4))
    case["config"].setdefault("soil", {})["thickness"] = draw(st.sampled_from([[0.1, 0.2, 0.4, 0.8], [0.1], [0.05, 0.5], [0.1] * 6]))
    case["threads"] = draw(st.sampled_from([1, 2, 5]))
    return case


def simulation(case, rec):
    interp = Interpreter()
    config = dict(numba_threads=min(case["threads"], numba.config.NUMBA_NUM_THREADS))
    with interp.installed(), full.open_model(case, config) as m:
        for _ in range(case["nsteps"]):
            m.run_single()
    rec.label(*full.labels(case), *interp.calls, *(["ill_conditioned"] if interp.ill_conditioned else []), f"{case['threads']} threads")
    rec.nt(sum(c > 0 for _, c in interp.calls.values()) >= 1)


sub("C27", "simulation", simulation_cases, quick=160, thorough=3000, budget=40,
    rule="a compiled kernel modified the model state")(simulation)


@st.composite
def large_cases(draw):
    case = draw(full.full_case(nsteps=(2, 6), max_rows=4, max_cols=4))
    rows, cols = len(case["dem"]), len(case["dem"][0])
    case["tile"] = [-(-draw(st.integers(30, 150)) // rows), -(-draw(st.integers(30, 150)) // cols)]
    case["threads"] = draw(st.sampled_from([3, 5, 8]))
    return case


def tiled(case):
    case = dict(case)
    tile = lambda g: np.tile(np.array(g, float), case["tile"]).tolist()  # noqa: E731
    case["dem"] = tile(case["dem"])
    case["grids"] = {k: tile(g) for k, g in case["grids"].items()}
    # (saves the costly calculation of the sky view factor)
    case["grids"]["svf"] = np.full(np.shape(case["dem"]), 0.875).tolist()
    if "ice" in case:
        case["ice"] = tile(case["ice"])
    return case


def large(case, rec):
    """The loops over the pixels may be executed by several threads."""
    interp = Interpreter(threads_only=True)
    config = dict(numba_threads=min(case["threads"], numba.config.NUMBA_NUM_THREADS))
    with interp.installed(), full.open_model(tiled(case), config) as m:
        for _ in range(case["nsteps"]):
            m.run_single()
    rec.label(*full.labels(case), *interp.calls, f"{case['threads']} threads", *(["ill_conditioned"] if interp.ill_conditioned else []))
    rec.nt(sum(c > 0 for _, c in interp.calls.values()) >= 1)


sub("C27", "threads", large_cases, quick=64, thorough=1000, budget=40,
    rule="a compiled kernel modified the state of a grid of at least 900 pixels")(large)


# ---------------------------------------------------------------- terrain
@st.composite
def terrain_cases(draw):
    case = draw(c15.terrain_case(max_size=12))
    case["azim"] = draw(st.one_of(st.integers(0, 359), st.sampled_from([0, 45, 90, 135, 180, 270])))
    case["elev"] = draw(st.one_of(st.integers(1, 89), st.sampled_from([0, 90])))
    case["sweeps"] = draw(st.sampled_from([1, 1, 2, 3]))
    case["threads"] = draw(st.sampled_from([1, 2, 5]))
    case["svf"] = draw(st.integers(0, 7)) == 0 and len(case["dem"]) < 7
    return case


def terrain_kernels(case, rec):
    dem, res = c15.to_dem(case), float(case["res"])
    a, e = np.deg2rad(case["azim"]), np.deg2rad(case["elev"])
    vec = np.array([np.sin(a) * np.cos(e), -np.cos(a) * np.cos(e), np.sin(e)])
    interp = Interpreter()
    with threads(case["threads"]), interp.installed():
        radiation.shadows(dem, res, vec, num_sweeps=case["sweeps"])
        terrain.openness(dem, res, max(case["L"] * res, res))
        terrain.openness(dem, res, max(case["L"] * res, res), negative=True)
        if case["svf"] and not np.isnan(dem).all():
            terrain.sky_view_factor(dem, res)
    rec.label(*interp.calls, *(["ill_conditioned"] if interp.ill_conditioned else []))
    rec.nt(dem.size > 1 and np.nanstd(dem) > 0)


sub("C27", "terrain", terrain_cases, quick=900, thorough=15000, budget=30,
    rule="more than one pixel, not flat")(terrain_kernels)


# ---------------------------------------------------------------- numerical kernels
@st.composite
def heat_cases(draw):
    return dict(columns=[draw(c16.column())], tri=draw(c16.tridiagonal()))


def heat(case, rec):
    from openamundsen import heatconduction, tridiag

    interp = Interpreter()
    with interp.installed():
        for c in case["columns"]:
            a = {k: np.array(v, float) if isinstance(v, list) else float(v) for k, v in c.items()}
            heatconduction.temp_change(a["dx"], a["dt"], a["T"], a["k"], a["Tb"], a["dxb"], a["kb"], a["G"], a["C"])
        a, b, cc, d = (np.array(case["tri"][k], float) for k in "abcd")
        a[0], cc[-1] = 0, 0
        b = b + 0.1 + np.abs(a) + np.abs(cc)
        for j in range(a.shape[1]):
            tridiag.solve_tridiag(*(np.ascontiguousarray(v[:, j]) for v in (a, b, cc, d)))
    rec.label(*interp.calls)
    rec.nt(len(case["columns"][0]["T"]) > 1)


sub("C27", "heat", heat_cases, quick=1500, thorough=30000, budget=15, rule="more than one layer")(heat)
