"""Hypothesis strategies shared by the checks. All of them produce JSON-able values."""
from . import bootstrap

bootstrap.setup()

from hypothesis import strategies as st  # noqa: E402

T0 = 273.15


def num(lo, hi, decimals=2):
    """Numbers from [lo, hi] on a decimal lattice (readable, shrinks towards lo/0)."""
    f = 10**decimals
    return st.integers(round(lo * f), round(hi * f)).map(lambda i: i / f)


def sparse(zero_weight, s, zero=0.0):
    """``zero`` in about zero_weight/(zero_weight+1) of the cases, else from ``s``."""
    return st.one_of(*([st.just(zero)] * zero_weight), s)


TIMESTEPS_H = ["h", "3h", "6h", "24h"]


@st.composite
def start_dates(draw, hours=(0,)):
    year = draw(st.sampled_from([2019, 2020, 2021]))
    month = draw(st.integers(1, 12))
    day = draw(st.sampled_from([1, 2, 15, 27, 28]))
    hour = draw(st.sampled_from(list(hours)))
    return f"{year}-{month:02d}-{day:02d} {hour:02d}:00"


@st.composite
def dem(draw, rows, cols, lo=1500, relief=600):
    base = draw(st.integers(lo, lo + 1500))
    kind = draw(st.sampled_from(["flat", "plane", "rough"]))
    if kind == "flat":
        return [[float(base)] * cols for _ in range(rows)]
    if kind == "plane":
        a = draw(st.integers(-60, 60))
        b = draw(st.integers(-60, 60))
        return [[float(base + a * i + b * j) for j in range(cols)] for i in range(rows)]
    return [
        [float(base + draw(st.integers(0, relief))) for _ in range(cols)] for _ in range(rows)
    ]


@st.composite
def segment(draw, nmax=8, tmin=-25.0, tmax=20.0, pmax=30.0):
    """A few time steps of constant weather."""
    return dict(
        n=draw(st.integers(1, nmax)),
        t=round(T0 + draw(num(tmin, tmax)), 2),
        p=draw(sparse(1, num(0.0, pmax))),
        rh=draw(num(5, 100, 1)),
        u=draw(num(0, 25, 1)),
        cf=draw(num(0.05, 1.0)),
        cl=draw(num(0, 1)),
    )


@st.composite
def winter_column(draw, nseg=(1, 4), nmax=8):
    """A weather history, usually starting with snowfall so that there is a snowpack to act on."""
    segs = []
    if draw(st.integers(0, 9)) < 8:
        segs.append(
            dict(
                n=draw(st.integers(1, 4)),
                t=round(T0 + draw(num(-15, -1)), 2),
                p=draw(num(0.5, 60)),
                rh=95.0,
                u=2.0,
                cf=0.5,
                cl=0.7,
            )
        )
    for _ in range(draw(st.integers(*nseg))):
        segs.append(draw(segment(nmax)))
    return segs


TI_SNOW = dict(snow=dict(model="cryolayers", melt=dict(method="temperature_index", degree_day_factor=4.0)))


@st.composite
def roi_mask(draw, rows, cols, p_none=2):
    """Region of interest as 0/1 rows with at least one pixel (or None: the whole grid)."""
    if draw(st.integers(0, p_none + 2)) < p_none:
        return None
    m = [[draw(st.integers(0, 1)) for _ in range(cols)] for _ in range(rows)]
    m[draw(st.integers(0, rows - 1))][draw(st.integers(0, cols - 1))] = 1
    return m


@st.composite
def small_domain(draw, max_rows=4, max_cols=5, max_columns=3, missing=False):
    """Terrain, region of interest and weather columns of a small model domain."""
    rows, cols = draw(st.integers(1, max_rows)), draw(st.integers(1, max_cols))
    columns = draw(st.lists(winter_column(nmax=5), min_size=1, max_size=max_columns))
    if missing:
        for c in columns:
            for s in c:
                for k in ("t", "p", "rh", "u"):
                    if draw(st.integers(0, 9)) == 0:
                        s[k] = None
    roi = draw(roi_mask(rows, cols))
    return dict(
        res=draw(st.sampled_from([50, 100])), dem=draw(dem(rows, cols)), columns=columns, grids={} if roi is None else {"roi": roi},
    )
