"""C17: outliers, robust change points and abnormal hourly patterns."""
import math

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
from kats.detectors.hourly_ratio_detection import HourlyRatioDetector
from kats.detectors.outlier import OutlierDetector
from kats.detectors.outlier_detector import OutlierDetectorModel
from kats.detectors.robust_stat_detection import RobustStatDetector
from kats.detectors.threshold_detector import StaticThresholdModel
from scipy import stats
from sklearn.covariance import MinCovDet
from statsmodels.tsa.seasonal import seasonal_decompose

import gen
from checks.c13 import series
from checks.c16 import quantile

PROPERTY = "C17"
RULE = ("random seasonal series (1-3 columns) with planted outliers, gaps and histories; random series with steps "
        "for the robust statistics; months of hourly or finer data with incomplete and abnormal days; distinct = "
        "(detector, options, sizes, outliers found) signature")
ASSUMPTIONS = ["values within rounding of a limit are set aside",
               "with missing points, or multiplicatively, outliers are judged by the reported scores only",
               "the robust covariance of the hourly ratios is that of scikit-learn under the same random state"]


def table(c, n, k, period):
    i = np.arange(n)[:, None]
    v = 30 + c.choice([0, 0.1, -0.05]) * i + c.choice([0.0, 1.0, 6.0]) * np.sin(2 * math.pi * i / period + np.arange(k))
    v = v + c.rng.normal(0, 1, (n, k))
    for _ in range(c.int(0, 4)):
        v[c.int(0, n - 1), c.int(0, k - 1)] += c.choice([12.0, -15.0, 25.0])
    return v


def residual(y, period):
    """The documented residual: without trend, and without season if it is strong."""
    f = seasonal_decompose(y, model="additive", period=period, extrapolate_trend="freq")
    strength = 1 - np.nanvar(f.resid) / np.nanvar(y - f.trend)
    return (y - f.seasonal if strength >= 0.6 else y) - f.trend, strength


def removed(c, ts, out, v, bad, interpolate):
    """The series without its outliers, as missing or as interpolated values."""
    n, k = v.shape
    want = v.copy()
    for q in range(k):
        want[list(bad[q]), q] = np.nan
    if interpolate:
        want = pd.DataFrame(want).interpolate(method="linear", limit_direction="both").to_numpy()
    c.check(list(pd.DatetimeIndex(out.time)) == list(pd.DatetimeIndex(ts.time)), "times after removal", got=len(out), want=n)
    c.close(np.asarray(out.value, dtype=float).reshape(n, k), want, "values after removal", interpolate=interpolate)
    c.event("series without outliers")


def outliers(c):
    freq, period = c.choice([("D", 7), ("D", 7), ("H", 24), ("MS", 12)])
    k = c.choice([1, 1, 2, 3])
    n = c.int(2 * period + 3, 5 * period + 20)
    form = c.choice(["additive"] * 5 + ["multiplicative", "unknown"])
    mult = c.choice([3.0, 3.0, 1.5, 1.0])
    t = gen.regular(c, n, freq)
    v = table(c, n, k, period)
    if form == "multiplicative":
        v = np.abs(v) + 1
    missing = c.chance(0.15) and freq == "D"
    if missing:
        keep = np.setdiff1d(np.arange(n), c.rng.choice(np.arange(1, n - 1), c.int(1, 3), replace=False))
        t, v = t[keep], v[keep]
        n = len(keep)
    names = gen.names(c, k)
    ts = series(t, v, names, c.choice(gen.TIME_NAMES))
    snap = gen.Frozen(ts)
    c.note(freq=freq, n=n, k=k, form=form, mult=mult, missing=missing)
    d = OutlierDetector(ts, decomp=form, iqr_mult=mult)
    d.detector()
    c.event("outlier detections")
    c.check(len(d.outliers) == k and list(d.output_scores.columns) == names, "one answer per column",
            got=(len(d.outliers), list(d.output_scores.columns)))
    grid = list(d.output_scores.index)
    if not missing:
        c.check(grid == list(t), "times of the scores", got=len(grid), want=n)
    else:
        c.check(set(t) <= set(grid), "times of the scores include the data")
    bad = []
    for q in range(k):
        s = d.output_scores.iloc[:, q].to_numpy()
        c.check(not np.isnan(s).any(), "every score is a number")
        clear = [i for i in range(len(s)) if min(abs(s[i]), abs(s[i] - 1)) > 1e-9]
        by_score = [grid[i] for i in clear if s[i] < 0 or s[i] > 1]
        c.check([x for x in d.outliers[q] if x in set(grid[i] for i in clear)] == by_score, "outliers are the scores outside 0 to 1",
                got=d.outliers[q], want=by_score)
        c.event("outliers", len(by_score))
        if form != "multiplicative" and not missing:
            r, strength = residual(v[:, q], period)
            if abs(strength - 0.6) > 1e-9:
                q1, q3 = quantile(r.tolist(), 0.25), quantile(r.tolist(), 0.75)
                lo, hi = q1 - mult * (q3 - q1), q3 + mult * (q3 - q1)
                c.close(s, (r - lo) / (hi - lo), "scores", rtol=1e-6, atol=1e-8, column=q)
                c.event("score series compared")
                c.event("strong season" if strength >= 0.6 else "weak season")
        at = {x: i for i, x in enumerate(t)}
        bad.append([at[x] for x in d.outliers[q] if x in at])
    if not missing:
        inter = c.chance(0.5)
        removed(c, ts, d.remover(interpolate=inter), v, bad, inter)
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.state("outliers", freq, n, k, form, mult, missing, [len(b) for b in bad])


def model(c):
    k = c.choice([1, 1, 2])
    n = c.int(30, 70)
    h = c.choice([0, c.int(5, 25)])
    t = gen.regular(c, n, "D")
    v = table(c, n, k, 7)
    names = gen.names(c, k)
    whole = series(t, v, names, "time")
    mult = c.choice([3.0, 1.5])
    m = OutlierDetectorModel(decomp="additive", iqr_mult=mult)
    if c.chance(0.4):
        m = OutlierDetectorModel(serialized_model=m.serialize())
        c.event("models restored")
    if c.chance(0.5):
        # an earlier run on other data must not matter
        o = c.int(20, 40)
        m.fit_predict(series(gen.regular(c, o, "D") + pd.Timedelta(9000, "D"), table(c, o, k, 7), names, "time"))
        c.event("runs before")
    data, hist = whole[h:], (whole[:h] if h else None)
    fd, fh = gen.Frozen(data), gen.Frozen(hist) if h else None
    inter = c.chance(0.5)
    c.note(n=n, h=h, k=k, mult=mult, interpolate=inter)
    how = c.choice(["fit_predict", "fit then predict"])
    if how == "fit_predict":
        r = m.fit_predict(data=data, historical_data=hist, interpolate=inter)
    else:
        m.fit(data=data, historical_data=hist)
        r = m.predict(data=data, historical_data=hist, interpolate=inter)
    want, clean = np.zeros((n, k)), v.copy()
    for q in range(k):
        x, strength = residual(v[:, q], 7)
        if abs(strength - 0.6) < 1e-9:
            return
        q1, q3 = quantile(x.tolist(), 0.25), quantile(x.tolist(), 0.75)
        lo, hi = q1 - mult * (q3 - q1), q3 + mult * (q3 - q1)
        want[:, q] = (x - lo) / (hi - lo)
        if min(np.abs(want[:, q]).min(), np.abs(want[:, q] - 1).min()) < 1e-9:
            return
        clean[(want[:, q] < 0) | (want[:, q] > 1), q] = np.nan
    if inter:
        clean = pd.DataFrame(clean).interpolate(method="linear", limit_direction="both").to_numpy()
    for ts, w, label in [(r.scores, want, "scores"), (r.predicted_ts, clean, "data without outliers"),
                         (r.anomaly_magnitude_ts, np.zeros((n, k)), "magnitudes")]:
        c.check(list(pd.DatetimeIndex(ts.time)) == list(t[h:]), f"times of {label}", got=len(ts), want=n - h)
        c.close(np.asarray(ts.value, dtype=float).reshape(n - h, k), w[h:], label, rtol=1e-6, atol=1e-8)
    c.event("model answers judged")
    c.check(fd.unchanged(data), "the data are left as they were")
    c.check(fh is None or fh.unchanged(hist), "the history is left as it was")
    c.state("model", n, h, k, mult, how)


def robust(c):
    n = c.int(8, 90)
    t = gen.regular(c, n) if c.chance(0.6) else gen.irregular(c, n)
    v = c.rng.normal(0, c.choice([0.2, 1.0]), n)
    for _ in range(c.int(0, 3)):
        v[c.int(1, n - 1):] += c.choice([4.0, -3.0, 10.0])
    if c.chance(0.1):
        v[:] = 3.0
    w, back = c.int(1, 8), c.choice([-2, -2, -1, -4, 1, 2, 3])
    cut = c.choice([1e-2, 1e-2, 5e-2, 1e-3, 0.2])
    ts = series(t, v.reshape(-1, 1), gen.names(c, 1), c.choice(gen.TIME_NAMES))
    snap = gen.Frozen(ts)
    d = RobustStatDetector(ts)
    cps = d.detector(p_value_cutoff=cut, smoothing_window_size=w, comparison_window=back)
    c.note(n=n, window=w, comparison=back, cutoff=cut, found=len(cps))
    smooth = [math.fsum(v[i - w + 1:i + 1]) / w if i >= w - 1 else None for i in range(n)]
    if w > n:
        smooth = [math.nan] * n
    first = smooth[w - 1] if w <= n else math.nan
    smooth = [first if x is None else x for x in smooth]
    diff = [smooth[i] - smooth[i - back] if 0 <= i - back < n else 0.0 for i in range(n)]
    m = math.fsum(diff) / n
    s = math.sqrt(math.fsum((x - m) ** 2 for x in diff) / n)
    c.event("robust detections")
    if s < 1e-9:
        if max(v) == min(v):
            c.check(len(cps) == 0, "constant data have no change points", got=len(cps))
        return
    z = [(x - m) / s for x in diff]
    c.close(d.zscore, z, "z-scores", rtol=1e-6, atol=1e-7)
    p = [float(stats.norm.sf(abs(x))) for x in z]
    if min(abs(x - cut) for x in p) < 1e-9:
        return
    want, last = [], None
    for i in range(n):
        if p[i] < cut and (last is None or i - last >= w):
            want.append(i)
            last = i
    c.check([x.index for x in cps] == want, "change points", got=[x.index for x in cps], want=want)
    for x, i in zip(cps, want):
        c.check(pd.Timestamp(x.start_time) == t[i] == pd.Timestamp(x.end_time), "time of the change point", got=x.start_time, want=t[i])
        c.close(x.confidence, 1 - p[i], "confidence", rtol=1e-6)
        c.close(x.metric, diff[i], "metric", rtol=1e-6, atol=1e-7)
        c.event("robust change points")
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.state("robust", n, w, back, cut, want)


def threshold(c):
    n = c.int(1, 20)
    t = gen.regular(c, n)
    v = gen.values(c, n, c.choice(["normal", "int", "nan", "big"]))
    ts = series(t, np.asarray(v).reshape(-1, 1), gen.names(c, 1), c.choice(gen.TIME_NAMES))
    snap = gen.Frozen(ts)
    r = StaticThresholdModel().fit_predict(ts, historical_data=c.choice([None, ts]))
    c.check(list(pd.DatetimeIndex(r.scores.time)) == list(t), "times")
    c.close(r.scores.value.values, np.asarray(v, dtype=float), "scores are a copy of the data", rtol=0, atol=0)
    c.check(r.scores.value.name == ts.value.name, "name of the scores")
    c.close(r.anomaly_magnitude_ts.value.values, np.zeros(n), "magnitudes", atol=0)
    c.raises((ValueError,), "predict", StaticThresholdModel().predict, ts, None)
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.event("copies")
    c.state("threshold", n)


def hourly(c):
    days = c.int(215, 260)
    fine = c.chance(0.3)
    start = pd.Timestamp(c.choice(["2020-01-01", "2021-11-15", "2019-02-20"]))
    shape = 10 + 5 * np.sin(2 * math.pi * np.arange(24) / 24) + c.rng.rand(24)
    v = np.abs(shape * c.rng.uniform(5, 10, (days, 1)) * (1 + c.rng.normal(0, 0.03, (days, 24)))) + 1
    odd = set(c.rng.choice(days, c.int(0, 4), replace=False).tolist())
    for q in odd:
        v[q] = v[q][::-1]
    agg = c.choice(["sum", "mean", "max", "min"]) if fine else None
    times, vals = [], []
    for q in range(days):
        for hr in range(24):
            base = start + pd.Timedelta(q * 24 + hr, "h")
            if fine:
                for half in range(2):
                    times.append(base + pd.Timedelta(30 * half, "m"))
                    vals.append(v[q, hr] * (0.4 + 0.2 * half + 0.1 * c.rng.rand()))
            else:
                times.append(base)
                vals.append(v[q, hr])
    times, vals = np.array(times), np.array(vals)
    drop = c.rng.choice(len(times), c.int(0, 3), replace=False)
    holes = c.rng.choice(len(times), c.int(0, 2), replace=False)
    vals[holes] = np.nan
    keep = np.setdiff1d(np.arange(len(times)), drop)
    t, x = pd.DatetimeIndex(times[keep]), vals[keep]
    names = c.choice([("time", "value"), ("ds", "y")])
    ts = series(t, x.reshape(-1, 1), [names[1]], names[0])
    snap = gen.Frozen(ts)
    freq = c.choice([None, None, "H"]) if not fine else c.choice([None, "30T"])
    cells = {}
    for a, b in zip(t, x):
        if not np.isnan(b):
            cells.setdefault((a.date(), a.hour), []).append(float(b))
    f = {"sum": sum, "mean": lambda q: sum(q) / len(q), "max": max, "min": min, None: lambda q: q[0]}[agg]
    byday = {}
    for (day, hr), q in cells.items():
        byday.setdefault(day, {})[hr] = f(q)
    full = sorted(day for day in byday if len(byday[day]) == 24)
    part = sorted(day for day in byday if len(byday[day]) < 24)
    seed = c.int(0, 10**6)
    d = HourlyRatioDetector(ts, freq=freq, aggregate=agg)
    np.random.seed(seed)
    sup = c.choice([0.9, 0.9, 0.8])
    got = d.detector(support_fraction=sup)
    c.note(days=days, fine=fine, aggregate=agg, odd=len(odd), incomplete=len(part), found=len(got), names=names)
    c.check([p.start_time for p in d.incomplete_dates] == part, "incomplete days", got=[p.start_time for p in d.incomplete_dates], want=part)
    c.event("incomplete days", len(part))
    np.random.seed(seed)
    want = []
    for w in range(7):
        ds = [day for day in full if day.weekday() == w]
        obs = np.array([[byday[day][hr] for hr in range(24)] for day in ds])
        obs = obs / obs.sum(axis=1, keepdims=True)
        med = np.median(obs, axis=0)
        med = (med / med.sum() * 24)[:-1]
        cov = MinCovDet(assume_centered=True, support_fraction=sup).fit(obs[:, :-1] - med).covariance_
        diff = obs[:, :-1] - med
        dist = np.einsum("ij,ij->i", diff, np.linalg.solve(cov, diff.T).T)
        p = 1.0 - stats.chi2(df=23).cdf(dist)
        want += [(day, a) for day, a in zip(ds, p)]
    shown = {q.start_time: q for q in got}
    c.check(len(shown) == len(got), "each day is reported once")
    c.check(set(shown) <= set(full), "only complete days are reported")
    for day, a in want:
        if abs(a - 0.01) < 1e-6:
            continue
        c.check((day in shown) == (a <= 0.01), "abnormal day", day=day, p=a)
        if day in shown:
            c.check(shown[day].end_time == day, "end of the day")
            c.close(shown[day].confidence, 1 - a, "confidence", rtol=1e-4, atol=1e-6)
        c.event("days judged")
    order = [day for day, a in want if day in shown]
    c.check([q.start_time for q in got] == order, "order of the days")
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.state("hourly", days, fine, agg, len(odd), len(part))


def refused(c):
    n = c.int(30, 60)
    t = gen.regular(c, n, "H")
    multi = series(t, c.rng.normal(9, 1, (n, 2)), ["a", "b"])
    kind = c.choice(["robust", "hourly columns", "coarse", "no aggregate", "unknown aggregate", "short days", "plot"])
    if kind == "robust":
        c.raises((ValueError,), "several columns", RobustStatDetector, multi)
    elif kind == "hourly columns":
        c.raises((ValueError,), "several columns", HourlyRatioDetector, multi)
    elif kind == "coarse":
        f = c.choice(["D", "2H", "12H"])
        c.raises((ValueError,), "coarser than hourly", HourlyRatioDetector, series(gen.regular(c, n, f), c.rng.rand(n, 1), ["v"]))
    elif kind in ("no aggregate", "unknown aggregate"):
        ts = series(gen.regular(c, n, c.choice(["T", "15min"])), c.rng.rand(n, 1), ["v"])
        c.raises((ValueError,), kind, HourlyRatioDetector, ts, aggregate=None if kind == "no aggregate" else c.choice(["median", "Sum"]))
    elif kind == "short days":
        ts = series(pd.date_range("2020-01-01 01:00", periods=c.int(5, 23), freq="H"), c.rng.rand(23, 1), ["v"]) \
            if False else series(pd.date_range("2020-01-01 01:00", periods=23, freq="H"), c.rng.rand(23, 1), ["v"])
        c.raises((ValueError,), "no complete day", HourlyRatioDetector(ts).detector)
    else:
        c.raises((ValueError,), "plot before detection", HourlyRatioDetector(series(t, c.rng.rand(n, 1), ["v"])).plot)
    c.state(kind)


SCENARIOS = [("outliers", 80, 2500, outliers), ("model", 60, 1500, model), ("robust", 150, 5000, robust),
             ("threshold", 30, 500, threshold), ("hourly", 6, 150, hourly), ("refused", 40, 400, refused)]
NEED = {"score series compared": 60, "outliers": 60, "robust change points": 100, "days judged": 700, "runs before": 15,
        "refusals observed": 50, "strong season": 15, "weak season": 15, "series without outliers": 40}
