"""C20: the time axis is complete and the properties of the time steps are right."""
import datetime as dt

import pandas as pd
from hypothesis import strategies as st

from openamundsen import errors

from .. import gen, synth
from ..core import check, sub

STEPS = {
    "h": 1, "H": 1, "1h": 1, "2h": 2, "3h": 3, "3H": 3, "6h": 6, "8h": 8, "12h": 12, "24h": 24, "D": 24, "1D": 24, "2D": 48,
    "5D": 120, "30D": 720, "31D": 744, "366D": 8784, "30min": 0.5, "10min": 1 / 6, "5h": 5, "48h": 48, "365D": 8760,
}
PIVOTS = ["2019-12-31", "2020-02-28", "2020-02-29", "2020-12-31", "2021-02-28", "2021-03-31", "2020-04-30", "2020-01-15", "2021-07-01"]
WEATHER = [[dict(n=1, t=270.0, p=0.0, rh=80.0, u=2.0, cf=0.5, cl=0.5)]]
SNOW = dict(snow=dict(model="cryolayers", melt=dict(method="temperature_index", degree_day_factor=4.0)))


@st.composite
def cases(draw):
    timestep = draw(st.sampled_from(list(STEPS)))
    step = dt.timedelta(hours=STEPS[timestep])
    pivot = dt.datetime.fromisoformat(draw(st.sampled_from(PIVOTS)))
    start = pivot + dt.timedelta(hours=draw(st.sampled_from([0, 0, 0, 1, 6, 12, 23]))) - draw(st.integers(0, 30)) * step
    n = draw(st.integers(1, 60))
    end = draw(st.sampled_from(["datetime", "string", "date", "date-string", "off"]))
    last = start + (n - 1) * step
    if end == "off":
        last += dt.timedelta(hours=draw(st.sampled_from([-0.5, 0.25, 1, -1])))
    return dict(
        start=start.isoformat(sep=" "), timestep=timestep, last=last.isoformat(sep=" "), end=end, mode=draw(st.sampled_from(["run", "single"])),
        start_type=draw(st.sampled_from(["string", "datetime", "timestamp"])), write_freq=draw(st.booleans()),
    )


def axis(case):
    """(start, end) as meant and the list of all dates in between, or None if they do not match."""
    start, last = dt.datetime.fromisoformat(case["start"]), dt.datetime.fromisoformat(case["last"])
    step = dt.timedelta(hours=STEPS[case["timestep"]])
    if case["end"] in ("date", "date-string"):
        last = dt.datetime.combine(last.date(), dt.time())
        if step < dt.timedelta(days=1):
            last += dt.timedelta(days=1) - step
    dates = []
    d = start
    while d <= last:
        dates.append(d)
        d += step
    return dates if dates and dates[-1] == last else None


def props(dates, i, step):
    d = dates[i]
    out = {}
    for name, other, edge in (("first", d - step, i == 0), ("last", d + step, i == len(dates) - 1)):
        new = dict(
            day=other.date() != d.date(), month=(other.year, other.month) != (d.year, d.month), year=other.year != d.year,
        )
        out[f"{name}_of_run"] = edge
        for k, v in new.items():
            out[f"strict_{name}_of_{k}"] = v
            out[f"{name}_of_{k}"] = v or edge
    return out


def time_axis(case, rec):
    step = dt.timedelta(hours=STEPS[case["timestep"]])
    dates = axis(case)
    start, last = dt.datetime.fromisoformat(case["start"]), dt.datetime.fromisoformat(case["last"])
    end = {
        "datetime": last, "off": last, "string": str(last), "date": last.date(), "date-string": str(last.date()),
    }[case["end"]]
    s = {"string": str(start), "datetime": start, "timestamp": pd.Timestamp(start)}[case["start_type"]]
    tc = dict(start=case["start"], timestep=case["timestep"], nsteps=1, res=50, dem=[[1500.0]], columns=WEATHER, config=SNOW)
    over = dict(start_date=s, end_date=end)
    if step > dt.timedelta(days=1):
        over["output_data"] = dict(timeseries=dict(write_freq=f"{int(STEPS[case['timestep']])}h"))
    with synth.workdir() as d:
        synth.write_grids(d, 50, {"dem": tc["dem"]})
        cfg = synth.base_config(d, dict(tc, timestep="h"), "callback", dict(over, timestep=case["timestep"]))
        try:
            model = synth.make_model(cfg)
        except errors.ConfigurationError:
            check(dates is None, f"valid period {start}..{end} rejected")
            rec.label("rejected")
            return
        check(dates is not None, f"period {start}..{end} does not match time step {case['timestep']}")
        check(model.config.end_date == dates[-1] and model.config.start_date == dates[0], f"dates {model.config.start_date}..{model.config.end_date}")
        if len(dates) > 150:
            return
        seen = []

        def callback(m):
            seen.append((m.date, m.timestep_props, m.date_idx))
            synth.column_callback(dict(tc, nsteps=len(dates)))(m)

        model.initialize(meteo_callback=callback)
        check(model.timestep == step.total_seconds(), f"time step {model.timestep} s")
        check([x.to_pydatetime() for x in model.dates] == dates, f"dates {model.dates}")
        if case["mode"] == "run":
            model.run()
        else:
            for _ in dates:
                model.run_single()
        check([x[0].to_pydatetime() for x in seen] == dates, f"processed dates {[x[0] for x in seen]}")
        check([x[2] for x in seen] == list(range(len(dates))), "date indices")
        for i, (date, p, _) in enumerate(seen):
            for k, v in props(dates, i, step).items():
                check(getattr(p, k) is v or getattr(p, k) == v, f"{k} is {getattr(p, k)} at {date} (step {case['timestep']}, period {dates[0]}..{dates[-1]})")
        for fn in (model.run_single, model.run):
            try:
                fn()
            except errors.OpenAmundsenRuntimeError:
                pass
            else:
                check(False, "a finished run was continued")
        check(len(seen) == len(dates) and model.date == pd.Timestamp(dates[-1]), "finished run was changed")
    rec.label(case["timestep"], case["end"])
    rec.nt(len({(x.year, x.month, x.day) for x in dates}) > 1)


sub("C20", "time_axis", cases, quick=600, thorough=12000, budget=45,
    rule="the run covers at least two days")(time_axis)


# ---------------------------------------------------------------- time zones
@st.composite
def tz_cases(draw):
    return dict(
        start=draw(gen.start_dates(hours=(0, 6, 12, 18))), timestep=draw(st.sampled_from(["h", "3h"])), nsteps=draw(st.integers(1, 6)), res=50,
        dem=draw(gen.dem(2, 2)), columns=WEATHER, config=SNOW, tz=draw(st.integers(-2, 4)), sim=draw(st.one_of(st.none(), st.integers(-5, 5))),
    )


def timezones(case, rec):
    """The sun position depends on the instant only, in whatever time zone it is given."""
    sim = case["tz"] if case["sim"] is None else case["sim"]

    def sun(start, timezone, simulation_timezone):
        c = dict(case, start=str(start), timezone=timezone)
        with synth.column_model(c, dict(timezone=timezone, simulation_timezone=simulation_timezone)) as m:
            out = []
            for _ in range(c["nsteps"]):
                m.run_single()
                out.append((m.sun_params, m.state.meteo.sw_in_clearsky.copy()))
            return out

    start = pd.Timestamp(case["start"])
    a = sun(start, case["tz"], case["sim"])
    b = sun(start + pd.Timedelta(hours=case["tz"] - sim), case["tz"], None)
    for x, y in zip(a, b):
        check((x[1] == y[1]).all(), "clear-sky radiation depends on the time zone of the data")
    rec.nt(sim != case["tz"] and any(x[1].any() for x in a))


sub("C20", "timezones", tz_cases, quick=60, thorough=1500, budget=15,
    rule="different time zones and daylight")(timezones)
