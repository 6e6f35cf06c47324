"""Land cover / soil texture generators shared by the canopy, phenology and ET checks."""
from . import bootstrap

bootstrap.setup()

from hypothesis import strategies as st  # noqa: E402

from . import gen  # noqa: E402


@st.composite
def stage_lengths(draw, lo=1, hi=80):
    return [draw(st.integers(lo, hi)) for _ in range(4)]


@st.composite
def forest_class(draw, around_doy=None):
    """A forest class; ``around_doy`` makes a phase change during the run likely."""
    lengths = draw(stage_lengths(1, 60))
    if around_doy is not None and draw(st.booleans()):
        plant = (around_doy - 1 - draw(st.integers(0, sum(lengths)))) % 365 + 1
    else:
        plant = draw(st.integers(1, 366))
    lai_min = draw(gen.num(0.2, 5, 1))
    return dict(
        is_forest=True,
        plant_date=plant,
        growth_stage_lengths=lengths,
        leaf_area_index=dict(
            min=lai_min,
            max=round(lai_min + draw(gen.num(0, 8, 1)), 1),
            effective_add=draw(gen.num(0, 2, 1)),
        ),
    )


def with_int_classes(config):
    """JSON object keys are strings; land cover classes are integers."""
    classes = config.get("land_cover", {}).get("classes")
    if classes:
        config = dict(config, land_cover=dict(classes={int(k): v for k, v in classes.items()}))
    return config


def stage_curve(day, cycles, k_ini, k_mid, k_end, k_out):
    """
    FAO-56 piecewise linear curve (one or several subcycles of (ini, dev, mid, late) lengths) for
    the day ``day`` (1-based) of the growing period; returns (value, stage) with stage None outside.
    """
    start = 0
    for ini, dev, mid, late in cycles:
        if start < day <= start + ini:
            return k_ini, "ini"
        start += ini
        if start < day <= start + dev:
            return k_ini + (day - start) / dev * (k_mid - k_ini), "dev"
        start += dev
        if start < day <= start + mid:
            return k_mid, "mid"
        start += mid
        if start < day <= start + late:
            return k_mid + (day - start) / late * (k_end - k_mid), "late"
        start += late
    return k_out, None


def cycles_of(params):
    g = params["growth_stage_lengths"]
    return g if isinstance(g[0], list) else [g]


@st.composite
def growing_season(draw, doy, zeros=True):
    lo = 0 if zeros else 1
    if draw(st.integers(0, 3)) == 0:
        g = [
            [draw(st.integers(lo, 30)) for _ in range(4)] for _ in range(draw(st.integers(2, 3)))
        ]
        total = sum(sum(c) for c in g)
    else:
        g = [draw(st.integers(lo, 80)) for _ in range(4)]
        total = sum(g)
    if draw(st.integers(0, 3)) > 0:
        plant = (doy - draw(st.integers(-3, total + 3))) % 366 + 1
    else:
        plant = draw(st.integers(1, 366))
    return dict(plant_date=plant, growth_stage_lengths=g)


@st.composite
def crop_class(draw, doy, kind):
    c = dict(
        max_height=draw(st.sampled_from([0.1, 0.225, 1.0, 2.5])),
        rooting_depth=draw(st.sampled_from([0.1, 0.3, 0.5, 1.2])),
        depletion_fraction=draw(st.sampled_from([0.3, 0.5, 0.6, 0.7])),
    )
    if kind == "sealed":
        c.update(is_sealed=True, max_sealed_interception=draw(gen.num(0.1, 3)))
        c["max_height"] = draw(st.sampled_from([0.1, 1.0, 1.9]))
        return c
    c.update(draw(growing_season(doy)))
    c["crop_coefficients"] = [
        draw(gen.num(0.1, 0.9)), draw(gen.num(0.3, 1.3)), draw(gen.num(0.15, 1.2))
    ]
    c["scale_height"] = draw(st.booleans())
    if kind == "water":
        c.update(is_water_body=True, crop_coefficient_type="single")
    elif kind == "single":
        c["crop_coefficient_type"] = "single"
    else:
        c["crop_coefficient_type"] = "dual"
        if draw(st.integers(0, 2)) == 0:
            c.update(is_sparse=True, sparse_vegetation_fraction=draw(gen.num(0.05, 0.95)))
    return c
