"""C15: decomposition into trend, seasonality and remainder."""
import math

import numpy as np
import pandas as pd
from kats.consts import DataError, DataIrregularGranularityError, ParameterError, TimeSeriesData
from kats.utils.decomposition import SeasonalityHandler, TimeSeriesDecomposition
from statsmodels.tsa.seasonal import STL, seasonal_decompose

import gen
from checks.c13 import series

PROPERTY = "C15"
RULE = ("random seasonal series (one column, or 1-3 for the seasonality handler; several steps, missing values and points, zones) decomposed "
        "with random methods, periods and smoothing options; distinct = (method, form, options, size) signature")
ASSUMPTIONS = ["times lie on a grid of a fixed step; multiplicative decompositions get positive values",
               "values filled in for missing ones are not judged, only that they exist"]


def data(c, n, k, period, positive=False, amplitude=None):
    i = np.arange(n)[:, None]
    v = 20 + 0.05 * i * c.choice([0, 1, -1]) + (amplitude or c.choice([0, 2, 5])) * np.sin(2 * math.pi * i / period + np.arange(k))
    v = v + c.rng.normal(0, c.choice([0.1, 1.0]), (n, k))
    if c.chance(0.2):
        v[c.int(0, n - 1)] += 15
    return np.abs(v) + 0.5 if positive else v - c.choice([0, 20])


def arr(ts):
    a = np.asarray(ts.value, dtype=float)
    return a.reshape(len(ts), -1)


def decompose(c):
    method = c.choice(["STL", "STL", "seasonal_decompose", "unknown"])
    stl = method != "seasonal_decompose"
    form = c.choice(["additive", "additive", "multiplicative", "other"])
    mult = form == "multiplicative"
    k = 1  # the installed statsmodels cannot decompose several columns
    period = c.int(2, 12)
    n = c.int(2 * period + 2, 8 * period + 10)
    freq = c.choice(["D", "D", "H", "15min", "2H", "S"])
    t = gen.regular(c, n, freq, c.choice([None, None, None, "UTC"]))
    v = data(c, n, k, period, mult)
    missing = c.chance(0.25) and n > 12
    if missing:
        e = c.choice([0, 1])  # also at the ends
        v[c.rng.choice(np.arange(e, n - e), c.int(1, 3), replace=False), c.int(0, k - 1)] = np.nan
        if not e:
            v[c.choice([0, -1]), c.int(0, k - 1)] = np.nan
    names = gen.names(c, k)
    ts = series(t, v, names, c.choice(gen.TIME_NAMES))
    snap = gen.Frozen(ts)
    kw = {}
    given = c.chance(0.75)
    if given:
        kw["period"] = period
    elif freq == "D":
        period = 7
    else:
        period = 2
    if n < 2 * period + 2:
        kw["period"] = period = max(2, n // 2 - 1)
    if stl:
        for key, options in [("seasonal", [7, 9, 13]), ("trend_deg", [0, 1]), ("seasonal_deg", [0, 1]), ("low_pass_deg", [0, 1]),
                             ("robust", [True, False]), ("seasonal_jump", [1, 2]), ("trend_jump", [1, 3]), ("low_pass_jump", [1, 2])]:
            if c.chance(0.3):
                kw[key] = c.choice(options)
        if c.chance(0.2):
            kw["trend"] = 2 * period + 5 - (period % 2) * 0
            kw["trend"] += 1 - kw["trend"] % 2
        if c.chance(0.2):
            kw["low_pass"] = period + 1 + (period % 2)
    c.note(method=method, form=form, n=n, k=k, freq=freq, kw=kw, missing=missing)
    d = TimeSeriesDecomposition(ts, decomposition=form, method=method, **kw)
    res = d.decomposer()
    c.event("decompositions")
    c.check(set(res) == {"trend", "seasonal", "rem"}, "components", got=sorted(res))
    parts = {}
    for name, x in res.items():
        c.check(list(pd.DatetimeIndex(x.time)) == list(t), f"times of {name}", got=len(x), want=n)
        if k > 1:
            c.check(list(x.value.columns) == names, f"columns of {name}", got=list(x.value.columns))
        parts[name] = arr(x)
    seen = ~np.isnan(v)
    whole = ~np.isnan(parts["trend"]) & ~np.isnan(parts["rem"])
    if stl:
        c.check(whole.all() and not np.isnan(parts["seasonal"]).any(), "every component is complete")
    else:
        c.check(whole[period // 2:n - period // 2].all() and not np.isnan(parts["seasonal"]).any(),
                "the components are complete but for the edges", period=period)
        c.close(parts["seasonal"][period:], parts["seasonal"][:-period], "the seasonal part repeats", rtol=1e-9)
    if mult:
        back = parts["trend"] * parts["seasonal"] * parts["rem"]
    else:
        back = parts["trend"] + parts["seasonal"] + parts["rem"]
    at = seen & whole
    c.close(back[at], v[at], "the components give the data back", rtol=1e-7, atol=1e-8)
    c.event("points put together", int(at.sum()))
    if not missing:
        if stl:
            x = pd.Series(np.log(v[:, 0]) if mult else v[:, 0], index=t)
            f = STL(x, **{"period": period, "seasonal": 7, **kw}).fit()
            w = {"trend": f.trend, "seasonal": f.seasonal, "rem": f.resid}
            w = {p: np.exp(y) if mult else y for p, y in w.items()}
            want = {p: np.asarray(y).reshape(-1, 1) for p, y in w.items()}
        else:
            f = [seasonal_decompose(v[:, q], model="multiplicative" if mult else "additive", period=period) for q in range(k)]
            want = {"trend": np.column_stack([x.trend for x in f]), "seasonal": np.column_stack([x.seasonal for x in f]),
                    "rem": np.column_stack([x.resid for x in f])}
        for p in parts:
            c.close(parts[p], want[p], f"{p} of the series alone", rtol=1e-6, atol=1e-7)
        c.event("components compared", 3)
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.state(method, form, n, k, freq, sorted(kw), missing)


def handler(c):
    k = c.choice([1, 1, 2, 3])
    freq = c.choice(["D", "D", "H", "H", "15min", "5H", "2D", "6H", "T"])
    step = pd.Timedelta(pd.tseries.frequencies.to_offset(freq))
    n = c.choice([7, 8, c.int(9, 30), c.int(30, 90)])
    t = gen.regular(c, n, freq)
    zone = c.choice([None, None, None, "UTC", "Asia/Kolkata"])
    if zone:
        t = t.tz_localize("UTC").tz_convert(zone)
    sec = int(step.total_seconds())
    length = c.choice(["daily", "weekly", "hourly", "biweekly", "monthly", "yearly", sec * c.int(1, 12), sec * c.int(2, 12) + 1])
    secs = {"hourly": 3600, "daily": 86400, "weekly": 7 * 86400, "biweekly": 14 * 86400, "monthly": 30 * 86400,
            "yearly": 365 * 86400}.get(length, length)
    v = data(c, n, k, max(2, min(secs // sec, n // 2)), amplitude=c.choice([1, 4]))
    keep = np.arange(n)
    if c.chance(0.4) and n > 15:
        inner = c.rng.permutation(np.arange(1, n - 1))[:c.int(1, n // 8)]
        keep = np.setdiff1d(keep, inner)
    m = len(keep)
    tk, vk = t[keep], v[keep]
    names = gen.names(c, k)
    ts = series(tk, vk, names, c.choice(gen.TIME_NAMES))
    snap = gen.Frozen(ts)
    kw = {}
    if c.chance(0.3):
        kw = {"lpj_factor": c.choice([0.0, 0.3, 1.0]), "tj_factor": c.choice([0.0, 0.3, 1.0])}
    sh = SeasonalityHandler(ts, seasonal_period=length, ignore_irregular_freq=c.chance(0.5), **kw)
    order = c.choice(["season first", "rest first", "season only", "rest only", "twice"])
    c.note(n=n, k=k, freq=freq, length=length, dropped=n - m, order=order, zone=zone, kw=kw)
    got = {}
    for what in {"season first": "sr", "rest first": "rs", "season only": "s", "rest only": "r", "twice": "srsr"}[order]:
        got[what] = sh.get_seasonality() if what == "s" else sh.remove_seasonality()
    period = min(int(secs / sec), m // 2)
    if period < 2:
        period = 7
    lp, tj = kw.get("lpj_factor", 0.15), kw.get("tj_factor", 0.15)
    want = {"s": np.zeros((m, k)), "r": np.zeros((m, k))}
    for q in range(k):
        grid = np.interp(np.arange(n), keep, vk[:, q])
        f = STL(pd.Series(grid, index=t), period=period, seasonal=7, robust=True, seasonal_deg=0, trend_deg=1, low_pass_deg=1,
                low_pass_jump=max(int((period + 1) * lp), 1), trend_jump=max(int((period + 1) * tj), 1), seasonal_jump=1).fit()
        s = np.asarray(f.seasonal)
        want["s"][:, q] = s[keep]
        want["r"][:, q] = (grid - s)[keep]
    for what, x in got.items():
        label = {"s": "the seasonal part", "r": "the rest"}[what]
        c.check(list(pd.DatetimeIndex(x.time)) == list(tk), f"{label}: times", got=len(x), want=m)
        c.check((list(x.value.columns) if k > 1 else [x.value.name]) == names, f"{label}: names")
        c.close(arr(x), want[what], f"{label}: values", rtol=1e-6, atol=1e-7, period=period)
        c.event("seasonal series judged")
    if len(got) == 2:
        c.close(arr(got["s"]) + arr(got["r"]), vk, "both parts give the data back", rtol=1e-9, atol=1e-9)
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.state("handler", n, k, freq, length, m, order, zone)


def refused(c):
    kind = c.choice(["columns", "short", "period", "type", "irregular", "plot"])
    n = c.int(10, 30)
    t = gen.regular(c, n, "D")
    uni, multi = series(t, data(c, n, 1, 7), ["y"]), series(t, data(c, n, 2, 7), ["a", "b"])
    if kind == "columns":
        c.raises((ValueError,), "STL of several columns", TimeSeriesDecomposition, multi, method=c.choice(["STL", "other"]))
    elif kind == "short":
        c.raises((DataError,), "fewer than 7 points", SeasonalityHandler, c.choice([uni, multi])[:c.int(1, 6)])
    elif kind == "period":
        c.raises((ParameterError,), "unknown period", SeasonalityHandler, uni, seasonal_period=c.choice(["Daily", "day", ""]))
    elif kind == "type":
        c.raises((ParameterError,), "period of a wrong type", SeasonalityHandler, uni, seasonal_period=c.choice([7.5, None, [7]]))
    elif kind == "irregular":
        off = np.cumsum(c.rng.choice(np.arange(3, 400), n, replace=False))
        ts = series(pd.DatetimeIndex(gen.start(c) + pd.to_timedelta(off, unit="s")), data(c, n, 1, 7), ["y"])
        c.raises((DataIrregularGranularityError,), "times on no grid", SeasonalityHandler, ts, seasonal_period="daily")
    else:
        c.raises((ValueError,), "plotting before decomposing", TimeSeriesDecomposition(uni).plot)
    c.state(kind, n)


SCENARIOS = [("decompose", 160, 4000, decompose), ("handler", 130, 3000, handler), ("refused", 60, 500, refused)]
NEED = {"decompositions": 100, "components compared": 200, "seasonal series judged": 120, "refusals observed": 40}
