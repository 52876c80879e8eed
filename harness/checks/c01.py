"""C01: building a TimeSeriesData keeps every observation, in time order."""
import collections
import datetime as dt

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData

import gen
from core import Skip

PROPERTY = "C01"
RULE = ("random frames / (time, value) pairs: order, duplicates, time encoding (datetime, text, "
        "custom format, unix in s/ms/us/ns, zone), value dtype, index labels, column order and "
        "names; non-trivial = at least one row; distinct = different (form, encoding, shape, "
        "options, ties, order) signature")
ASSUMPTIONS = ["times within 1970-2100 at whole seconds for text encodings",
               "rows with equal timestamps may come out in any order among themselves"]

EPOCH = dt.datetime(1970, 1, 1)


def encode(c, secs, how):
    """Column contents for instants given as whole seconds since the epoch."""
    stamps = [EPOCH + dt.timedelta(seconds=int(s)) for s in secs]
    if how == "datetime":
        return pd.Series(stamps, dtype="datetime64[ns]"), {}
    if how == "iso":
        spell = c.choice([["%Y-%m-%d %H:%M:%S"], ["%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%Y/%m/%d %H:%M:%S"]])
        return pd.Series([s.strftime(c.choice(spell)) for s in stamps]), {}
    if how == "format":
        f = c.choice(["%d/%m/%Y %H:%M:%S", "%m-%d-%Y %H.%M.%S", "%Y%m%d%H%M%S"])
        return pd.Series([s.strftime(f) for s in stamps]), {"date_format": f}
    unit = how.split("_")[1]
    k = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}[unit]
    return (pd.Series([int(s) * k for s in secs], dtype="int64"),
            {"use_unix_time": True, "unix_time_units": unit})


def build(c):
    n = c.choice([1, 1, 2, 3, 5, 8, 20, 60])
    k = c.choice([1, 1, 1, 2, 3])
    secs = np.sort(c.rng.randint(0, c.choice([n, 3 * n, 10**5, 4 * 10**8]) + 1, size=n)) + 10**9
    step = c.choice([1, 60, 86400])
    secs = 10**9 + (secs - 10**9) * step if step * (secs.max() - 10**9) < 3 * 10**9 else secs
    order = c.choice(["sorted", "reversed", "shuffled", "shuffled"])
    if order == "reversed":
        secs = secs[::-1]
    elif order == "shuffled":
        secs = c.rng.permutation(secs)
    cols = gen.names(c, k)
    kinds = [c.choice(["normal", "int", "nan", "big", "const", "zeros"]) for _ in cols]
    vals = [gen.values(c, n, kd) for kd in kinds]
    for j, v in enumerate(vals):
        if c.chance(0.2) and v.dtype.kind == "f" and not np.isnan(v).any():
            vals[j] = np.round(np.clip(v, -1e6, 1e6)).astype(c.choice(["int32", "int64", "float32"]))
    return n, secs, order, cols, vals


def model(secs, vals, sort, drop_dup):
    rws = [(int(s) * 10**9, tuple(None if np.isnan(v[i]) else float(v[i]) for v in vals))
           for i, s in enumerate(secs)]
    if drop_dup:
        seen, kept = set(), []
        for r in rws:
            if r[0] not in seen:
                seen.add(r[0])
                kept.append(r)
        rws = kept
    return sorted(rws, key=lambda r: r[0]) if sort else rws


def judge(c, ts, want, cols, sort, time_name):
    got = gen.rows(ts)
    c.event("rows compared", len(got))
    c.check(len(ts) == len(want) == len(ts.time) == ts.value.shape[0], "row count is preserved",
            got=len(ts), want=len(want), time=len(ts.time), value=ts.value.shape)
    c.check([r[0] for r in got] == [r[0] for r in want], "timestamps and their order",
            got=[r[0] for r in got][:8], want=[r[0] for r in want][:8])
    if sort:
        c.check(collections.Counter(got) == collections.Counter(want), "every (time, values) row kept",
                got=got[:6], want=want[:6])
        c.check(list(ts.time.index) == list(range(len(want))) and
                list(ts.value.index) == list(range(len(want))), "positions run 0..n-1",
                index=list(ts.value.index)[:8])
    else:
        c.check(got == want, "rows kept in the given order", got=got[:6], want=want[:6])
    c.check(ts.time_col_name == time_name, "time column name", got=ts.time_col_name, want=time_name)
    v = np.array([[np.nan if x is None else x for x in r[1]] for r in want], dtype=float)
    if len(cols) == 1:
        c.check(ts.is_univariate() and isinstance(ts.value, pd.Series), "one column gives a univariate series")
        c.check(ts.value.name == cols[0], "value name", got=ts.value.name, want=cols[0])
        lo = np.nan if np.isnan(v).all() else np.nanmin(v)
        hi = np.nan if np.isnan(v).all() else np.nanmax(v)
        c.close(float(ts.min), lo, "min", rtol=0, atol=0)
        c.close(float(ts.max), hi, "max", rtol=0, atol=0)
    else:
        c.check(not ts.is_univariate() and list(ts.value.columns) == cols, "value columns",
                got=list(ts.value.columns), want=cols)
        for j, col in enumerate(cols):
            x = v[:, j]
            c.close(float(ts.min[col]), np.nan if np.isnan(x).all() else np.nanmin(x), "min per column", rtol=0, atol=0)
            c.close(float(ts.max[col]), np.nan if np.isnan(x).all() else np.nanmax(x), "max per column", rtol=0, atol=0)


def from_frame(c):
    n, secs, order, cols, vals = build(c)
    how = c.choice(["datetime", "iso", "format", "unix_s", "unix_ms", "unix_us", "unix_ns"])
    tcol, opts = encode(c, secs, how)
    name = c.choice(gen.TIME_NAMES)
    data = {name: tcol}
    data.update({k: v for k, v in zip(cols, vals)})
    keys = list(data)
    if c.chance(0.4):
        keys = [keys[i] for i in c.rng.permutation(len(keys))]
    df = pd.DataFrame({k: data[k] for k in keys})
    lab = c.choice(["range", "shift", "shuffled", "text", "dup"])
    if lab == "shift":
        df.index = df.index + 100
    elif lab == "shuffled":
        df.index = c.rng.permutation(n)
    elif lab == "text":
        df.index = [f"r{i}" for i in range(n)]
    elif lab == "dup":
        df.index = [0] * n
    sort = c.chance(0.8)
    drop = c.chance(0.3)
    cols = [k for k in keys if k != name]
    vv = [data[k] for k in cols]
    c.note(form="frame", n=n, how=how, order=order, index=lab, sort=sort, drop_dup=drop, cols=cols, time=name)
    before = df.copy(deep=True)
    ts = TimeSeriesData(df, time_col_name=name, sort_by_time=sort, drop_duplicate_time=drop,
                        cache_datetimes=c.chance(0.7), **opts)
    c.check(gen.frame_equal(df, before), "the caller's frame is left as it was")
    judge(c, ts, model(secs, vv, sort, drop), cols, sort, name)
    c.state(how, order, lab, sort, drop, len(cols), min(n, 9), len(set(secs)) < n)


def from_pair(c):
    n, secs, order, cols, vals = build(c)
    how = c.choice(["datetime", "index", "iso", "unix_s", "unix_ms"])
    sort = c.chance(0.8)
    drop = c.chance(0.3)
    tname = c.choice(gen.TIME_NAMES + [None])
    opts = {}
    if how == "index":
        t = pd.DatetimeIndex([EPOCH + dt.timedelta(seconds=int(s)) for s in secs], name=tname)
    else:
        t, opts = encode(c, secs, how)
        t.name = tname
        if c.chance(0.5):
            t.index = t.index + 7
    if len(cols) == 1 and c.chance(0.8):
        v = pd.Series(vals[0], name=cols[0])
        if c.chance(0.2):
            v.name = None
            cols = ["value"]
    else:
        v = pd.DataFrame(dict(zip(cols, vals)))
    if c.chance(0.5):
        v.index = v.index[::-1]
    c.note(form="pair", n=n, how=how, order=order, sort=sort, drop_dup=drop, cols=cols, tname=tname)
    t0, v0 = t.copy(), v.copy()
    ts = TimeSeriesData(time=t, value=v, sort_by_time=sort, drop_duplicate_time=drop, **opts)
    c.check(t.equals(t0) and t.name == t0.name and v.equals(v0), "the caller's objects are left as they were")
    judge(c, ts, model(secs, vals, sort, drop), cols, sort, tname or "time")
    c.state(how, order, sort, drop, len(cols), type(v).__name__, min(n, 9), len(set(secs)) < n, tname)


def zoned(c):
    """A zone names the same instants: unix times are instants, text is local wall time."""
    tz = c.choice(gen.TZS)
    n = c.int(2, 40)
    form = c.choice(["unix", "text"])
    if form == "unix":
        step = c.choice([900, 3600, 86400, 7])
        secs = 1541000000 + c.int(0, 10**7) + np.arange(n) * step  # crosses DST changes
        if c.chance(0.5):
            secs = c.rng.permutation(secs)
        unit = c.choice(["s", "ms"])
        k = {"s": 1, "ms": 1000}[unit]
        vals = gen.values(c, n, "normal")
        df = pd.DataFrame({"time": secs * k, "value": vals})
        ts = TimeSeriesData(df, use_unix_time=True, unix_time_units=unit, tz=tz)
        want = sorted((int(s) * 10**9, (float(v),)) for s, v in zip(secs, vals))
        c.check(gen.rows(ts) == want, "unix times with a zone keep their instants and values",
                got=gen.rows(ts)[:4], want=want[:4])
    else:
        # local noon exists once every day in every zone
        days = [dt.datetime(2018, 3, 1, 12) + dt.timedelta(days=int(d)) for d in range(n)]
        order = c.rng.permutation(n)
        vals = gen.values(c, n, "normal")
        df = pd.DataFrame({"time": [days[i].strftime("%Y-%m-%d %H:%M:%S") for i in order],
                           "value": vals[order]})
        ts = TimeSeriesData(df, tz=tz)
        got = [t.replace(tzinfo=None) for t in pd.DatetimeIndex(ts.time).to_pydatetime()]
        c.check(got == days, "text times with a zone keep their wall time", got=got[:3], want=days[:3])
        c.close(ts.value.values, vals, "values follow their times", rtol=0, atol=0)
    c.check(str(ts.tz()) == str(pd.Timestamp("2020", tz=tz).tz), "zone", got=ts.tz(), want=tz)
    c.event("zoned series")
    c.note(tz=tz, form=form, n=n)
    c.state(tz, form, n)


def refused(c):
    """Inputs without a meaning are refused, not silently accepted."""
    n = c.int(2, 20)
    t = pd.Series(gen.regular(c, n, "D"))
    v = pd.Series(gen.values(c, n, "normal"))
    kind = c.choice(["lengths", "text", "nocolumn", "only time", "badtype", "textcol", "one empty"])
    E = (ValueError,)
    if kind == "lengths":
        m = c.int(1, n - 1)
        # a shorter value series than the time series, or the other way round
        a, b = (t, v[:m]) if c.chance(0.5) else (t[:m], v)
        c.raises(E, "lengths differ", TimeSeriesData, time=a, value=b)
    elif kind == "text":
        c.raises(E, "text values", TimeSeriesData, time=t, value=pd.Series(["a"] * n, name="v"))
    elif kind == "textcol":
        df = pd.DataFrame({"time": t, "a": v, "b": ["x"] * n})
        c.raises(E, "a text column", TimeSeriesData, df)
        ts = TimeSeriesData(df, categorical_var=["b"])
        c.check(list(ts.value["b"]) == ["x"] * n, "declared categorical columns are kept")
    elif kind == "nocolumn":
        c.raises(E, "no time column", TimeSeriesData, pd.DataFrame({"t": t, "v": v}))
    elif kind == "badtype":
        c.raises(E, "not a frame", TimeSeriesData, [1, 2, 3])
        c.raises(E, "values of a wrong type", TimeSeriesData, time=t, value=list(v))
    elif kind == "one empty":
        c.raises(E, "one side empty", TimeSeriesData, time=t, value=pd.Series([], dtype=float))
    else:
        c.raises((ValueError,), "only a time", TimeSeriesData, time=t, value=None)
    c.note(kind=kind, n=n)
    c.state(kind)


SCENARIOS = [("from_frame", 900, 20000, from_frame), ("from_pair", 700, 15000, from_pair),
             ("zoned", 250, 5000, zoned), ("refused", 150, 1500, refused)]
NEED = {"rows compared": 5000, "refusals observed": 50}
