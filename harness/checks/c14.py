"""C14: the statistical significance detectors."""
import collections
import math

import numpy as np
import pandas as pd
from kats.consts import (DataError, DataInsufficientError, InternalError, ParameterError, TimeSeriesData)
from kats.detectors.stat_sig_detector import MultiStatSigDetectorModel, StatSigDetectorModel
from kats.utils.decomposition import SeasonalityHandler

import gen
from checks.c13 import reference, series

PROPERTY = "C14"
RULE = ("random series (1-4 columns, several steps, zones, missing points) cut into history and data, with random "
        "window lengths, time units, scores, minimum changes and splitting limits; every reported point is judged "
        "from the two windows before it; distinct = (model, windows, options, sizes) signature")
ASSUMPTIONS = ["values are finite and windows do not have constant values",
               "windows without any point, and t-tests of one point against one, are not judged",
               "significance is not judged where a window has a single point, or on the limit"]


def table(c, n, k):
    v = c.choice([50.0, 10.0, -20.0]) + c.rng.normal(0, c.choice([0.5, 2.0]), (n, k))
    if n > 4 and c.chance(0.6):
        v[c.int(1, n - 1):] += c.choice([3.0, -5.0, 0.5]) * (c.rng.rand(k) < 0.8)
    return v


def most_frequent(t):
    g = collections.Counter(np.diff(pd.DatetimeIndex(t).asi8).tolist()).most_common(2)
    return None if not g or (len(g) > 1 and g[0][1] == g[1][1]) else pd.Timedelta(g[0][0])


def stream(c, n, k, freq, missing):
    t = gen.regular(c, n, freq)
    if missing:
        keep = np.sort(c.rng.choice(n, max(4, n - c.int(1, max(1, n // 6))), replace=False))
        t = t[keep]
    if c.chance(0.2):
        t = t.tz_localize("UTC").tz_convert(c.choice(["UTC", "Asia/Kolkata"]))
    return t, table(c, len(t), k)


def judge(c, r, t, v, h, names, unit, nc, nt, kw, season=None, scores_only=False, default=None):
    """t, v: all rows; the first h are history.  Every reported point."""
    k = v.shape[1]
    multi = k > 1
    d = len(t) - h
    first = t[0]
    parts = {"scores": r.scores, "anomaly_magnitude_ts": r.anomaly_magnitude_ts}
    if scores_only:
        c.check(r.confidence_band is None and r.predicted_ts is None and r.stat_sig_ts is None,
                "only scores are returned")
    else:
        parts.update(upper=r.confidence_band.upper, lower=r.confidence_band.lower, predicted=r.predicted_ts,
                     stat_sig=r.stat_sig_ts)
    out = {}
    for p, ts in parts.items():
        c.check(list(pd.DatetimeIndex(ts.time)) == list(t[h:]), f"times of {p}", got=len(ts), want=d)
        if multi:
            c.check(list(ts.value.columns) == names, f"columns of {p}", got=list(ts.value.columns), want=names)
        out[p] = np.asarray(ts.value, dtype=float).reshape(d, k)
    shown = v if default is None else default
    for i in range(d):
        now = t[h + i]
        if now < first + (nc + nt - 1) * unit:
            c.close(out["scores"][i], np.zeros(k), "score before enough history", atol=0)
            c.close(out["anomaly_magnitude_ts"][i], np.zeros(k), "magnitude before enough history", atol=0)
            if not scores_only:
                for p in ("upper", "lower", "predicted"):
                    c.close(out[p][i], shown[h + i], f"{p} before enough history")
                c.close(out["stat_sig"][i], np.zeros(k), "significance before enough history", atol=0)
            c.event("points before enough history")
            continue
        test_start = now - (nt - 1) * unit
        control_start = test_start - nc * unit
        cur = [j for j in range(h + i + 1) if test_start <= t[j] <= now]
        prev = [j for j in range(h + i + 1) if control_start <= t[j] < test_start]
        n1, n2 = len(prev), len(cur)
        if n1 == 0 or (n1 == 1 and n2 == 1):
            c.event("points not judged")
            continue
        ref = reference(v[cur].T.tolist(), v[prev].T.tolist(), kw.get("use_corrected_scores", not multi),
                        kw.get("method", "fdr_bh"), kw.get("skip_rescaling", False))
        c.event("points judged")
        for q in range(k):
            got, want = out["scores"][i, q], ref["t"][q]
            limit = kw.get("min_perc_change", 0.0)
            at = dict(row=i, column=q, windows=(n1, n2))
            if limit and abs(abs(ref["perc"][q]) - limit) < 1e-6:
                continue
            if abs(ref["perc"][q]) < limit:
                c.check(got == 0, "score below the minimum change", got=got, **at)
                c.event("scores clipped")
            elif ref["p"][q] > 1e-9 or not multi:
                c.close(got, want, "score", rtol=1e-5, atol=1e-7, **at)
            else:
                c.check(got * want > 0 and abs(got) > 4, "large score", got=got, want=want, **at)
        if scores_only:
            continue
        add = 0.0 if season is None else season[i]
        c.close(out["anomaly_magnitude_ts"][i], ref["diff"], "magnitude", rtol=1e-6, atol=1e-7)
        c.close(out["predicted"][i], np.array(ref["prev"]) + add, "prediction", rtol=1e-7, atol=1e-7)
        c.close(out["upper"][i], np.array(ref["ci_u"]) + add, "upper bound", rtol=1e-6, atol=1e-7)
        c.close(out["lower"][i], np.array(ref["ci_l"]) + add, "lower bound", rtol=1e-6, atol=1e-7)
        if min(n1, n2) > 1:
            for q in range(k):
                u, lo = ref["up"][q], ref["lo"][q]
                if min(abs(u - 1), abs(lo - 1)) > 1e-9:
                    c.check(out["stat_sig"][i, q] == float(not (u > 1 and lo < 1)), "significance",
                            got=out["stat_sig"][i, q], bounds=(lo, u), row=i, column=q)
                    c.event("significant points", int(not (u > 1 and lo < 1)))


def units(c, freq, t, h):
    """A time unit for the constructor (or None) and its length."""
    step = pd.Timedelta(pd.tseries.frequencies.to_offset(freq))
    known = most_frequent(t[h:]) if len(t) - h >= 3 else (most_frequent(t[:h]) if h >= 3 else None)
    if known == step and c.chance(0.6):
        return None, step
    if freq in ("D", "H", "T", "S") and c.chance(0.5):
        return {"D": "D", "H": "h", "T": "m", "S": "s"}[freq], step
    mult = c.choice([1, 1, 2])
    return f"{int(step.total_seconds()) * mult}s", step * mult


def run(c, cls, kw, data, hist, serial):
    m = cls(**kw)
    if serial:
        m = cls(serialized_model=m.serialize())
        c.event("detectors restored")
    fd = gen.Frozen(data)
    fh = gen.Frozen(hist) if hist is not None else None
    r = m.fit_predict(data=data, historical_data=hist) if hist is not None else m.fit_predict(data=data)
    c.check(fd.unchanged(data), "the data are left as they were")
    c.check(fh is None or fh.unchanged(hist), "the history is left as it was")
    c.event("detector runs")
    return m, r


def cut(c, t, v, h, names, name):
    whole = series(t, v, names, name)
    if c.chance(0.5):
        return whole[h:], (whole[:h] if h else None)
    return series(t[h:], v[h:], names, name), (series(t[:h], v[:h], names, name) if h else None)


def sizes(c, nc, nt, d_min=3):
    need = nc + nt
    h = c.choice([0, 0, c.int(1, 3), c.int(max(1, need - 3), need + 3), need + c.int(2, 12)])
    d = c.choice([d_min, c.int(d_min, 12), c.int(12, 30)])
    return h, d


def one(c):
    nc, nt = c.int(2, 12), c.int(1, 6)
    h, d = sizes(c, nc, nt, 1)
    freq = c.choice(gen.TICKS)
    t, v = stream(c, max(4, h + d), 1, freq, c.chance(0.4))
    h = min(h, len(t) - 1)
    unit_arg, unit = units(c, freq, t, h)
    if unit_arg is None and max(len(t) - h, h) < 3:
        raise_skip()
    kw = dict(n_control=nc, n_test=nt, use_corrected_scores=c.chance(0.6))
    if unit_arg:
        kw["time_unit"] = unit_arg
    if c.chance(0.4):
        kw["min_perc_change"] = c.choice([1.0, 5.0, 12.0])
    only = kw["use_corrected_scores"] and "min_perc_change" not in kw and nt > 1 and c.chance(0.3)
    if only:
        kw["anomaly_scores_only"] = True
    data, hist = cut(c, t, v, h, ["value"] if c.chance(0.5) else gen.names(c, 1), c.choice(gen.TIME_NAMES))
    c.note(nc=nc, nt=nt, h=h, d=len(t) - h, kw=kw, freq=freq)
    m, r = run(c, StatSigDetectorModel, kw, data, hist, c.chance(0.3))
    # too little data altogether: the default answer, in full
    short = t[-1] < t[0] + (nc + nt - 1) * unit
    judge(c, r, t, v, h, None, unit, nc, nt, kw, scores_only=only and not short)
    if c.chance(0.4):
        r2 = m.fit_predict(data=data, historical_data=hist) if h else m.fit_predict(data=data)
        c.close(r2.scores.value.values, r.scores.value.values, "scores of a second run", rtol=1e-12)
    c.state("one", nc, nt, h, len(t), kw.get("use_corrected_scores"), "min_perc_change" in kw, only)


def raise_skip():
    from core import Skip
    raise Skip()


def many(c):
    nc, nt, k = c.int(3, 12), c.int(1, 6), c.choice([2, 2, 3, 4])
    h, d = sizes(c, nc, nt)
    freq = c.choice(gen.TICKS)
    t, v = stream(c, max(4, h + d), k, freq, c.chance(0.3))
    h = min(h, len(t) - 1)
    unit_arg, unit = units(c, freq, t, h)
    if unit_arg is None and max(len(t) - h, h) < 3:
        raise_skip()
    kw = dict(n_control=nc, n_test=nt, method=c.choice(["fdr_bh", "fdr_bh", "fdr_by", "bonferroni", "holm"]),
              skip_rescaling=c.chance(0.3), use_corrected_scores=c.chance(0.5))
    if unit_arg:
        kw["time_unit"] = unit_arg
    if c.chance(0.4):
        kw["min_perc_change"] = c.choice([1.0, 5.0])
    names = gen.names(c, k)
    data, hist = cut(c, t, v, h, names, "time")
    c.note(nc=nc, nt=nt, k=k, h=h, d=len(t) - h, kw=kw, freq=freq)
    _, r = run(c, MultiStatSigDetectorModel, kw, data, hist, c.chance(0.3))
    judge(c, r, t, v, h, names, unit, nc, nt, kw)
    c.state("many", nc, nt, k, h, len(t), kw["method"], kw["skip_rescaling"], kw["use_corrected_scores"])


def split(c):
    """Long data are scored in parts, with the same result."""
    nc, nt = c.int(3, 10), c.int(2, 5)
    h = c.choice([0, nc + nt, nc + nt + c.int(1, 6), c.int(1, nc)])
    limit = c.int(5, 12)
    d = c.choice([limit * c.int(2, 4), limit * 2 + c.int(1, limit - 1), limit + 1]) + (max(0, nc + nt - 1 - h) if c.chance(0.5) else 0)
    freq = c.choice(gen.TICKS)
    t, v = stream(c, h + d, 1, freq, c.chance(0.3))
    h = min(h, len(t) - 1)
    unit_arg, unit = units(c, freq, t, h)
    kw = dict(n_control=nc, n_test=nt, max_split_ts_length=limit)
    if unit_arg:
        kw["time_unit"] = unit_arg
    if c.chance(0.4):
        kw["min_perc_change"] = c.choice([1.0, 5.0])
    data, hist = cut(c, t, v, h, ["value"], "time")
    c.note(nc=nc, nt=nt, h=h, d=len(t) - h, kw=kw, freq=freq)
    _, r = run(c, StatSigDetectorModel, kw, data, hist, c.chance(0.2))
    judge(c, r, t, v, h, None, unit, nc, nt, kw)
    c.event("long series")
    c.state("split", nc, nt, h, len(t), limit)


def seasonal(c):
    nc, nt, k = c.int(4, 9), c.int(2, 4), c.choice([1, 1, 2])
    h, d = nc + nt + c.int(14, 20), c.int(14, 24)
    name = c.choice(["weekly", "biweekly"])
    t, v = stream(c, h + d, k, "D", False)
    v = v + 4 * np.sin(np.arange(len(t)) / 7 * 2 * math.pi)[:, None]
    kw = dict(n_control=nc, n_test=nt, rem_season=True, seasonal_period=name)
    if k == 1 and c.chance(0.4):
        kw["max_split_ts_length"] = c.int(5, 10)
    names = gen.names(c, k)
    data, hist = series(t[h:], v[h:], names), series(t[:h], v[:h], names)
    c.note(nc=nc, nt=nt, k=k, h=h, d=d, kw=kw)
    _, r = run(c, StatSigDetectorModel if k == 1 else MultiStatSigDetectorModel, kw, data, hist, c.chance(0.3))
    sd = SeasonalityHandler(data=data, seasonal_period=name, ignore_irregular_freq=True)
    season = np.asarray(sd.get_seasonality().value, dtype=float).reshape(d, k).copy()
    plain = np.asarray(sd.remove_seasonality().value, dtype=float).reshape(d, k).copy()
    sh = SeasonalityHandler(data=hist, seasonal_period=name, ignore_irregular_freq=True)
    old = np.asarray(sh.remove_seasonality().value, dtype=float).reshape(h, k).copy()
    judge(c, r, t, np.vstack([old, plain]), h, names, pd.Timedelta(1, "D"), nc, nt, kw, season=season)
    c.event("seasonal runs")
    c.state("seasonal", nc, nt, k, h, d, name, "max_split_ts_length" in kw)


def refused(c):
    nc, nt = c.int(2, 6), c.int(2, 4)
    n = nc + nt + 6
    t = gen.regular(c, n, "D")
    uni, multi = series(t, table(c, n, 1), ["value"]), series(t, table(c, n, 2), ["a", "b"])
    kind = c.choice(["dimension", "arguments", "unit", "short", "predict"])
    cls = c.choice([StatSigDetectorModel, MultiStatSigDetectorModel])
    if kind == "dimension":
        c.raises((DataError,), "several columns", StatSigDetectorModel(nc, nt).fit_predict, multi)
        c.raises((DataError,), "one column", MultiStatSigDetectorModel(nc, nt).fit_predict, uni)
    elif kind == "arguments":
        c.raises((ParameterError,), "no window lengths", cls)
        c.raises((ParameterError,), "one window length", cls, n_control=nc)
        c.raises((ParameterError,), "one window length", cls, n_test=nt)
    elif kind == "unit":
        c.raises((ParameterError,), "unknown unit", cls, nc, nt, time_unit=c.choice(["fortnight", "x", "3Q"]))
    elif kind == "short":
        ts = uni if cls is StatSigDetectorModel else multi
        c.raises((DataInsufficientError,), "no step", cls(nc, nt).fit_predict, ts[:2])
        c.raises((DataInsufficientError,), "no step", cls(nc, nt).fit_predict, ts[2:4], historical_data=ts[:2])
    else:
        c.raises((InternalError,), "predict", cls(nc, nt).predict, uni)
    c.state(kind, cls.__name__)


SCENARIOS = [("one", 150, 4000, one), ("many", 60, 1500, many), ("split", 45, 1200, split),
             ("seasonal", 20, 400, seasonal), ("refused", 40, 300, refused)]
NEED = {"points judged": 700, "points before enough history": 200, "scores clipped": 30, "detectors restored": 20,
        "long series": 20, "refusals observed": 30, "significant points": 30}
