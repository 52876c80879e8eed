"""C16: rolling statistics and distances between distributions."""
import math

import numpy as np
import pandas as pd
from kats.consts import (DataError, DataInsufficientError, DataIrregularGranularityError, InternalError,
                         ParameterError, TimeSeriesData)
from kats.detectors.distribution_distance_model import DistributionDistanceModel
from kats.detectors.rolling_stats_model import RollingStatsModel
from kats.utils.decomposition import SeasonalityHandler

import gen
from checks.c13 import series
from core import Skip

PROPERTY = "C16"
RULE = ("random series with and without history, gaps and ties, under every statistic with windows in points and in "
        "seconds, and tables of percentiles or plain vectors under ten distances; distinct = (model, statistic, "
        "window, options, sizes) signature")
ASSUMPTIONS = ["values are finite; scores on the limit of the inter quartile rule are set aside",
               "the Jensen-Shannon distance is between the histograms the documented percentile conversion gives"]
STATS = ["iqr", "mad", "z_score", "modified_z_score_mad", "modified_z_score_iqr", "iqr_median_deviation"]


def quantile(x, p):
    s = sorted(x)
    k = (len(s) - 1) * p
    i = int(math.floor(k))
    j = min(i + 1, len(s) - 1)
    return s[i] + (s[j] - s[i]) * (k - i)


def median(x):
    return quantile(x, 0.5)


def score(stat, w, now, base):
    """w: the window (with the point for iqr and mad, else before it)."""
    if not w:
        return math.nan
    if stat == "iqr":
        return quantile(w, 0.75) - quantile(w, 0.25)
    if stat == "mad":
        m = median(w)
        return median([abs(a - m) for a in w])
    if stat == "z_score":
        m = math.fsum(w) / len(w)
        d = math.sqrt(math.fsum((a - m) ** 2 for a in w) / len(w))
        if d < 1e-12 * max(1.0, abs(m)):
            return 0.0 if max(w) == min(w) and float(w[0]).is_integer() else None
        return (now - m) / d
    m = median(w)
    if stat == "modified_z_score_mad":
        d = median([abs(a - m) for a in w])
        return (now - m) / d if d != 0 else 0.0
    q1, q3 = quantile(w, 0.25), quantile(w, 0.75)
    if stat == "modified_z_score_iqr":
        return (now - m) / (q3 - q1) if q3 != q1 else 0.0
    hi, lo = q3 + base * (q3 - q1), q1 - base * (q3 - q1)
    if min(abs(now - hi), abs(now - lo)) < 1e-9 and abs(now - m) > 1e-12:
        return None
    if m == 0 or lo <= now < hi:
        return 0.0
    return (1 if now >= hi else -1) * abs(now - m) / m


def rolling(c):
    stat = c.choice(STATS)
    incl = stat in ("iqr", "mad")
    points = c.chance(0.5)
    freq = c.choice(["T", "5min", "H", "D", "S", "15min"])
    step = int(pd.Timedelta(pd.tseries.frequencies.to_offset(freq)).total_seconds())
    size = c.int(2, 12) if points else c.int(3, 10)
    h = c.choice([0, size - 1, size, c.int(0, 20), size + c.int(1, 15)])
    d = c.choice([1, 2, c.int(3, 30)])
    n = h + d
    if n < 4:
        d, n = 4 - h, 4
    t = gen.regular(c, n, freq)
    gaps = c.chance(0.35) and n > 8
    if gaps:
        full = gen.regular(c, n + max(2, n // 5), freq)
        # the ends stay, and most steps are of the usual length
        drop = c.rng.choice(np.arange(1, len(full) - 1), len(full) - n, replace=False)
        t = full[np.setdiff1d(np.arange(len(full)), drop)]
    if c.chance(0.2):
        t = t.tz_localize("UTC").tz_convert(c.choice(["UTC", "Asia/Kolkata"]))
    v = gen.values(c, n, c.choice(["normal", "int", "steps", "mixed", "pos"])).astype(float)
    if c.chance(0.15):
        v[: n // 2] = v[0]
    name = "value" if c.chance(0.5) else gen.names(c, 1)[0]
    whole = series(t, v.reshape(-1, 1), [name], c.choice(gen.TIME_NAMES))
    data, hist = whole[h:], (whole[:h] if h else None)
    kw = dict(statistics=stat, point_based=points, score_base=c.choice([1.0, 1.0, 0.6745]),
              iqr_base=c.choice([1.5, 1.5, 0.5, 3.0]), allow_expanding_window=points and c.chance(0.5))
    odd = not points and c.chance(0.3)
    kw["rolling_window"] = size if points else size * step + (step // 3 if odd else 0)
    seasonal = c.chance(0.12) and n >= 20 and not gaps
    if seasonal:
        kw.update(remove_seasonality=True, seasonality_period=c.choice(["daily", "weekly"]))
    c.note(stat=stat, h=h, d=d, freq=freq, gaps=gaps, kw=kw)
    m = RollingStatsModel(**kw)
    if c.chance(0.3):
        m = RollingStatsModel(rolling_window=7, serialized_model=m.serialize())
        c.event("models restored")
    fd, fh = gen.Frozen(data), gen.Frozen(hist) if h else None
    if seasonal:
        v = np.asarray(SeasonalityHandler(whole, seasonal_period=kw["seasonality_period"]).remove_seasonality().value, dtype=float)
    secs = (pd.DatetimeIndex(t).asi8 // 10**9).tolist()
    steps = np.diff(secs)
    vals, counts = np.unique(steps, return_counts=True)
    if not points and (counts == counts.max()).sum() > 1:
        raise Skip()  # no most frequent step
    usual = int(vals[counts.argmax()])
    if not points and usual != step:
        raise Skip()
    by_points = points or (kw["rolling_window"] % step == 0 and (steps == step).all())
    width = size if points else kw["rolling_window"] // step
    need = width - 1 if incl else width

    def go():
        return m.fit_predict(data=data, historical_data=hist) if h else m.fit_predict(data=data)

    if by_points and h < need and not kw["allow_expanding_window"]:
        c.raises((DataInsufficientError,), "not enough history", go)
        c.state("refused", stat, points, h, size)
        return
    for turn in range(c.choice([1, 1, 2])):
        r = go()
        c.check(list(pd.DatetimeIndex(r.scores.time)) == list(t[h:]), "times", got=len(r.scores), want=d)
        got = np.asarray(r.scores.value, dtype=float)
        for i in range(h, n):
            if by_points:
                w = v[max(0, i - need): i + 1 if incl else i].tolist()
            else:
                back = kw["rolling_window"] - (step if incl else 0)
                w = [v[j] for j in range(i + 1) if secs[j] >= secs[i] - back]
                if len(w) < 2:
                    c.check(got[i - h] == 0, "score of a window with too few points", got=got[i - h])
                    continue
                if not incl:
                    w = w[:-1]
            want = score(stat, w, v[i], kw["iqr_base"])
            if want is None:
                continue
            c.close(got[i - h], want * kw["score_base"], "score" if not turn else "score in the second run",
                    rtol=1e-6, atol=1e-9 * max(1.0, np.abs(v).max()), row=i - h, window=len(w))
            c.event("scores judged")
            c.event("scores other than zero", int(want != 0))
        c.check(len(r.anomaly_magnitude_ts) == d and (np.asarray(r.anomaly_magnitude_ts.value) == 0).all(), "magnitudes")
    c.check(fd.unchanged(data), "the data are left as they were")
    c.check(fh is None or fh.unchanged(hist), "the history is left as it was")
    c.event("by points" if by_points else "by seconds")
    c.state(stat, points, size, h, d, freq, gaps, odd, seasonal, kw["iqr_base"], kw["score_base"])


def merged(x):
    out = []
    for i, a in enumerate(x):
        if i and not a > x[i - 1]:
            out[-1][1] += 1.0 / len(x)
        else:
            out.append([a, 1.0 / len(x)])
    return [a for a, _ in out], [p for _, p in out]


def histograms(a, b):
    """Both percentile vectors as probabilities over the longer one's bins."""
    (xa, pa), (xb, pb) = merged(a), merged(b)
    turned = len(xa) < len(xb)
    if turned:
        xa, pa, xb, pb = xb, pb, xa, pa
    cum = np.cumsum(pb).tolist()
    f = []
    for x in xa:
        above = [i for i, y in enumerate(xb) if x < y]
        if not above:
            f.append(1.0)
            continue
        i = above[0]
        if i == 0:
            if len(xb) == 1:
                f.append(0.0)
                continue
            lo, hi, start = xb[0], xb[1], 0.0
        else:
            lo, hi, start = xb[i - 1], xb[i], cum[i - 1]
        f.append(max(0.0, start + (x - lo) / (hi - lo) / len(a)))
    q = [f[0]] + [f[i] - f[i - 1] for i in range(1, len(f))]
    return (q, pa) if turned else (pa, q)


def js(p, q, base):
    sp, sq = math.fsum(p), math.fsum(q)
    if sp <= 0 or sq <= 0:
        return None
    p, q = [x / sp for x in p], [x / sq for x in q]

    def kl(u):
        out = 0.0
        for x, y in zip(u, [(a + b) / 2 for a, b in zip(p, q)]):
            if x > 0:
                out += x * math.log(x / y)
        return out

    return math.sqrt(max(0.0, (kl(p) + kl(q)) / 2 / math.log(base)))


def dist(metric, a, b):
    d = [x - y for x, y in zip(a, b)]
    if metric == "euclidean" or metric == "minkowski":
        return math.sqrt(math.fsum(x * x for x in d))
    if metric == "sqeuclidean":
        return math.fsum(x * x for x in d)
    if metric == "cityblock":
        return math.fsum(map(abs, d))
    if metric == "chebyshev":
        return max(map(abs, d))
    if metric == "braycurtis":
        return math.fsum(map(abs, d)) / math.fsum(abs(x + y) for x, y in zip(a, b))
    if metric == "canberra":
        return math.fsum(abs(x - y) / (abs(x) + abs(y)) for x, y in zip(a, b) if x or y)
    if metric == "hamming":
        return sum(x != y for x, y in zip(a, b)) / len(a)
    if metric == "correlation":
        ma, mb = math.fsum(a) / len(a), math.fsum(b) / len(b)
        a, b = [x - ma for x in a], [x - mb for x in b]
    dot = math.fsum(x * y for x, y in zip(a, b))
    return 1 - dot / math.sqrt(math.fsum(x * x for x in a) * math.fsum(x * x for x in b))


def distances(c):
    metric = c.choice(["jensenshannon"] * 5 + ["euclidean", "minkowski", "sqeuclidean", "cityblock", "chebyshev", "braycurtis",
                       "canberra", "hamming", "correlation", "cosine"])
    k = c.choice([2, 3, 4, 10])
    freq = c.choice(["T", "5min", "H", "D"])
    step = int(pd.Timedelta(pd.tseries.frequencies.to_offset(freq)).total_seconds())
    wide = c.int(1, 8)
    W = wide * step + c.choice([0, 0, 0, step // 20])
    h = c.choice([0, c.int(1, 6), wide + c.int(0, 10)])
    d = c.int(2, 25)
    n = h + d
    t = gen.regular(c, n, freq)
    keep = np.arange(n)
    if c.chance(0.25) and n > 10:
        keep = np.setdiff1d(keep, c.rng.choice(np.arange(1, n - 1), c.int(1, 2), replace=False))
        t = t[keep]
        h = int((keep < h).sum())
        n = len(keep)
        d = n - h
    v = c.choice([0.0, 10.0]) + c.rng.normal(0, 1, (n, k)) + c.choice([0.0, 0.1]) * np.arange(n)[:, None]
    if c.chance(0.3):
        v = np.round(v)
    unsorted = metric == "jensenshannon" and c.chance(0.08)
    mono = metric != "jensenshannon" and c.chance(0.3)
    if metric == "jensenshannon" or mono:
        v = np.sort(v, axis=1)
    if unsorted:
        i = c.int(0, n - 1)
        v[i] = v[i][::-1] if v[i][0] < v[i][-1] else [1.0] + [0.0] * (k - 1)
    if metric in ("correlation", "cosine", "braycurtis"):
        v = v + c.rng.rand(n, k) * 0.1
        if mono:
            v = np.sort(v, axis=1)
    names = [f"p{i}" for i in range(k)]
    whole = series(t, v, names, c.choice(["time", "ds"]))
    data, hist = whole[h:], (whole[:h] if h else None)
    base = c.choice([2, 2, 10])
    kw = dict(window_size_sec=W, distance_metric=metric, jsd_base=base)
    if mono:
        kw["validate_monotonic"] = True
    c.note(metric=metric, k=k, W=W, step=step, h=h, d=d, rows=n)
    m = DistributionDistanceModel(**kw)
    if c.chance(0.3):
        m = DistributionDistanceModel(window_size_sec=1, serialized_model=m.serialize())
        c.event("models restored")
    fd, fh = gen.Frozen(data), gen.Frozen(hist) if h else None
    secs = (pd.DatetimeIndex(t).asi8 // 10**9).tolist()

    def go():
        return m.fit_predict(data=data, historical_data=hist) if h else m.fit_predict(data=data)

    first = []
    for i in range(n):
        j = next(q for q in range(n) if secs[q] >= secs[i] - W)
        first.append(j if secs[i] - secs[j] > 0.9 * W else None)
    valid = [i for i in range(n) if first[i] is not None]
    if secs[-1] - secs[0] < W:
        c.raises((DataInsufficientError,), "window longer than the data", go)
    elif unsorted:
        c.raises((DataError,), "percentiles out of order", go)
    elif not valid:
        c.raises((DataInsufficientError,), "no point far enough back", go)
    else:
        s = max(valid[0], h)
        if any(first[i] is None for i in range(s, n)):
            c.raises((DataIrregularGranularityError,), "no point to compare with", go)
        else:
            r = go()
            c.check(list(pd.DatetimeIndex(r.scores.time)) == list(t[h:]), "times", got=len(r.scores), want=d)
            got = np.asarray(r.scores.value, dtype=float)
            c.close(got[:s - h], np.zeros(s - h), "scores before the first full window", atol=0)
            for i in range(s, n):
                a, b = v[first[i]].tolist(), v[i].tolist()
                if metric == "jensenshannon":
                    want = js(*histograms(a, b), base)
                    if want is None:
                        continue
                    c.close(got[i - h], want, "distance", rtol=1e-5, atol=1e-6, row=i - h)
                    c.check(-1e-9 <= got[i - h] <= 1 / math.sqrt(math.log2(base)) + 1e-9, "range of the distance", got=got[i - h])
                else:
                    c.close(got[i - h], dist(metric, a, b), "distance", rtol=1e-7, atol=1e-9, row=i - h)
                c.event("distances judged")
            c.check((np.asarray(r.anomaly_magnitude_ts.value) == 0).all(), "magnitudes")
    c.check(fd.unchanged(data), "the data are left as they were")
    c.check(fh is None or fh.unchanged(hist), "the history is left as it was")
    c.state(metric, k, W, step, h, n, base)


def refused(c):
    n = c.int(12, 30)
    t = gen.regular(c, n, "H")
    uni, multi = series(t, c.rng.normal(0, 1, (n, 1)), ["v"]), series(t, c.rng.normal(0, 1, (n, 3)), list("abc"))
    two = series(t, c.rng.normal(0, 1, (n, 2)), list("ab"))
    kind = c.choice(["columns", "metric", "period", "small", "fit", "shape"])
    if kind == "columns":
        m = RollingStatsModel(3)
        c.raises((DataError,), "several columns", m.fit_predict, multi[5:], historical_data=c.choice([None, multi[:5]]))
        c.raises((DataError,), "history of several columns", m.fit_predict, uni[5:], historical_data=multi[:5])
        c.raises((DataError,), "one column", DistributionDistanceModel(7200).fit_predict, uni)
        c.raises((DataError,), "history of one column", DistributionDistanceModel(7200).fit_predict, multi[5:], historical_data=uni[:5])
    elif kind == "metric":
        c.raises((ParameterError,), "unknown distance", DistributionDistanceModel, 3600, distance_metric=c.choice(["x", "Euclidean", ""]))
    elif kind == "period":
        c.raises((ParameterError,), "unknown period", RollingStatsModel, 5, seasonality_period=c.choice(["never", "Weekly"]))
    elif kind == "small":
        c.raises((ParameterError,), "window under three points",
                 RollingStatsModel(c.int(1, 3 * 3600 - 1), point_based=False, statistics=c.choice(STATS)).fit_predict, uni[6:], historical_data=uni[:6])
    elif kind == "fit":
        for m in (RollingStatsModel(3), DistributionDistanceModel(3600)):
            c.raises((InternalError,), "fit", m.fit, uni)
            c.raises((InternalError,), "predict", m.predict, uni)
    else:
        c.raises((DataError,), "columns that do not match", DistributionDistanceModel(7200, distance_metric="euclidean").fit_predict,
                 multi[5:], historical_data=two[:5])
    c.state(kind, n)


SCENARIOS = [("rolling", 260, 8000, rolling), ("distances", 150, 4000, distances), ("refused", 40, 400, refused)]
NEED = {"scores judged": 1200, "distances judged": 400, "models restored": 50, "by seconds": 25, "by points": 80,
        "refusals observed": 60, "scores other than zero": 500}
