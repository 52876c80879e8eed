"""C23: time series features (TsFeatures, calendar and Fourier features)."""
import contextlib
import io
import math
from datetime import datetime, timezone
from itertools import groupby

import numpy as np
import pandas as pd
from core import Skip
from kats.consts import TimeSeriesData
from kats.detectors.bocpd import BOCPDetector
from kats.detectors.cusum_detection import CUSUMDetector
from kats.detectors.outlier import OutlierDetector
from kats.detectors.robust_stat_detection import RobustStatDetector
from kats.detectors.seasonality import FFTDetector
from kats.detectors.trend_mk import MKDetector
from kats.tsfeatures.tsfeatures import TsCalenderFeatures, TsFeatures, TsFourierFeatures
from statsmodels.tsa.holtwinters import ExponentialSmoothing
from statsmodels.tsa.seasonal import STL

PROPERTY = "C23"
RULE = ("random series (noise, seasonal, trends, steps, plateaus, outliers; hourly to weekly; 5 to 200 points) through TsFeatures "
        "with random parameters and selections, several instances alive at once, and through the calendar and Fourier features; "
        "every value recomputed from its definition; distinct = (groups, sizes) signature")
ASSUMPTIONS = ["statsmodels' STL and exponential smoothing and the Kats detectors (judged by their own properties) are trusted: "
               "the features must report what they answer for the documented arguments",
               "constant series, for which most statistics are undefined, are not judged"]
JOBS = 8

GROUPS = {
    "stl_features": ["trend_strength", "seasonality_strength", "spikiness", "peak", "trough"],
    "level_shift_features": ["level_shift_idx", "level_shift_size"],
    "acfpacf_features": ["y_acf1", "y_acf5", "diff1y_acf1", "diff1y_acf5", "diff2y_acf1", "diff2y_acf5", "y_pacf5",
                         "diff1y_pacf5", "diff2y_pacf5", "seas_acf1", "seas_pacf1"],
    "special_ac": ["firstmin_ac", "firstzero_ac"],
    "holt_params": ["holt_alpha", "holt_beta"],
    "hw_params": ["hw_alpha", "hw_beta", "hw_gamma"],
    "statistics": ["length", "mean", "var", "entropy", "lumpiness", "stability", "flat_spots", "hurst", "std1st_der", "crossing_points",
                   "binarize_mean", "unitroot_kpss", "heterogeneity", "histogram_mode", "linearity"],
    "cusum_detector": ["cusum_num", "cusum_conf", "cusum_cp_index", "cusum_delta", "cusum_llr", "cusum_regression_detected",
                       "cusum_stable_changepoint", "cusum_p_value"],
    "robust_stat_detector": ["robust_num", "robust_metric_mean"],
    "bocp_detector": ["bocp_num", "bocp_conf_max", "bocp_conf_mean"],
    "outlier_detector": ["outlier_num"],
    "trend_detector": ["trend_num", "trend_num_increasing", "trend_avg_abs_tau"],
    "nowcasting": ["nowcast_roc", "nowcast_ma", "nowcast_mom", "nowcast_lag", "nowcast_macd", "nowcast_macdsign", "nowcast_macddiff"],
    "seasonalities": ["seasonal_period", "trend_mag", "seasonality_mag", "residual_std"],
    "time": ["time_years", "time_months", "time_monthsofyear", "time_weeks", "time_weeksofyear", "time_days", "time_daysofyear",
             "time_avg_timezone_offset", "time_length_days"] + ["time_freq_" + d for d in
                                                                ("Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday")],
}
DEFAULT = list(GROUPS)[:7]
CHEAP = ["stl_features", "level_shift_features", "acfpacf_features", "special_ac", "statistics", "outlier_detector", "nowcasting", "time",
         "cusum_detector"]
F2G = {f: g for g, fs in GROUPS.items() for f in fs}


def run(tf, x):
    with contextlib.redirect_stdout(io.StringIO()):
        return tf.transform(x)


def values(c, n):
    x = np.arange(n)
    y = c.choice([0.0, 10.0, -50.0]) + c.choice([0, 0.05, -0.3]) * x + c.choice([0, 2.0, 6.0]) * np.sin(2 * np.pi * x / c.choice([4, 7, 12])) \
        + c.choice([0.3, 1.0, 5.0]) * c.rng.normal(0, 1, n)
    kind = c.choice(["plain", "plain", "step", "plateau", "outlier", "rounded", "walk"])
    if kind == "step":
        y[c.int(1, n - 1):] += c.choice([10.0, -30.0])
    elif kind == "plateau" and n > 8:
        a = c.int(0, n - 6)
        y[a:a + c.int(2, max(3, n // 3))] = y[a]
    elif kind == "outlier":
        y[c.int(0, n - 1)] += c.choice([40.0, -60.0])
    elif kind == "rounded":
        y = np.round(y)
    elif kind == "walk":
        y = np.cumsum(y - y.mean())
    if c.chance(0.2):
        y = y * c.choice([1e3, 1e-3])
    if len(np.unique(y)) < 4:
        y = y + c.rng.normal(0, 1, n)
    return y


def times(c, n, tz=None):
    f = c.choice(["H", "D", "D", "W", "3D", "30min"])
    return pd.date_range(c.choice(["2020-12-20", "2019-02-25 03:00", "2024-01-29", "2016-12-31"]), periods=n, freq=f, tz=tz)


def ts(t, y, name="value"):
    return TimeSeriesData(pd.DataFrame({"time": t, name: y}))


def params(c, n):
    p = dict(window_size=20, spectral_freq=1, stl_period=7, nbins=10, lag_size=30, acfpacf_lag=6, decomp="additive", iqr_mult=3.0,
             threshold=0.8, window=5, n_fast=12, n_slow=21)
    for k, vs in {"window_size": [3, 5, 12], "spectral_freq": [2], "stl_period": [2, 4, 12], "nbins": [3, 5, 25], "lag_size": [6, 12, 80],
                  "acfpacf_lag": [2, 9], "decomp": ["multiplicative"], "iqr_mult": [1.5], "threshold": [0.3, 0.0], "window": [2, 9],
                  "n_fast": [3, 8], "n_slow": [10, 30]}.items():
        if c.chance(0.25):
            p[k] = c.choice(vs)
    return p


# ---------------------------------------------------------------- definitions
def acfs(y, k):
    d = y - y.mean()
    s = float(d @ d)
    return np.array([float(d[:len(d) - j] @ d[j:]) / s for j in range(1, k + 1)])


def pacfs(y, k):
    d, n = y - y.mean(), len(y)
    r = np.array([float(d @ d) / n] + [float(d[:-j] @ d[j:]) / (n - j) for j in range(1, k + 1)])
    out = []
    for j in range(1, k + 1):
        m = np.array([[r[abs(a - b)] for b in range(j)] for a in range(j)])
        out.append(np.linalg.solve(m, r[1:j + 1])[-1])
    return np.array(out)


def residuals(design, y):
    b = np.linalg.lstsq(design, y, rcond=None)[0]
    return y - design @ b


def chunks(y, k):
    q, r = divmod(len(y), k)
    out, a = [], 0
    for i in range(k):
        m = q + (i < r)
        out.append(y[a:a + m])
        a += m
    return out


def var(v):
    v = np.asarray(v, float)
    return float(((v - v.mean()) ** 2).mean())


def statistics(y, p):
    n, x = len(y), np.arange(len(y))
    o = {"length": n, "mean": math.fsum(y) / n, "var": var(y)}
    s = np.abs(np.fft.rfft(y - y.mean())) ** 2
    s[1:(n + 1) // 2] *= 2
    s = s / s.sum()
    o["entropy"] = -sum(v * math.log2(v) for v in s if v > 0) / math.log2(len(s))
    parts = chunks(y, n // p["window_size"] + 1)
    o["lumpiness"], o["stability"] = var([var(q) for q in parts]), var([q.mean() for q in parts])
    if n <= p["nbins"]:
        o["flat_spots"] = math.nan
    else:
        w = n // p["nbins"]
        o["flat_spots"] = max(len(list(g)) for i in range(0, n, w) for _, g in groupby(y[i:i + w]))
    lags = np.arange(2, min(p["lag_size"], n - 1))
    tau = [math.sqrt(var(y[k:] - y[:-k])) for k in lags]
    if len(lags) > 1 and min(tau) > 1e-9 * max(tau):
        a, b = np.log(lags) - np.log(lags).mean(), np.log(tau)
        o["hurst"] = float(a @ b / (a @ a))
    g = np.r_[y[1] - y[0], (y[2:] - y[:-2]) / 2, y[-1] - y[-2]]
    o["std1st_der"] = math.sqrt(var(g))
    m = np.median(y)
    o["crossing_points"] = sum((a <= m < b) or (a >= m > b) for a, b in zip(y[:-1], y[1:]))
    if np.abs(y - y.mean()).min() > 1e-9 * max(1e-300, np.abs(y).max()):
        o["binarize_mean"] = float((y > y.mean()).sum()) / n
    e = residuals(np.c_[np.ones(n), x], y)
    o["unitroot_kpss"] = float((np.cumsum(e) ** 2).sum() / n ** 2 / ((e @ e + e[1:] @ e[:-1]) / n)) \
        if e @ e + e[1:] @ e[:-1] > 1e-6 * (e @ e) and e @ e > 1e-12 * (y @ y) else None
    k = min(10, n // 5)
    z = y ** 2
    design = np.column_stack([np.ones(n - k)] + [z[k - j:n - j] for j in range(1, k + 1)])
    d = design.copy()
    d[:, 1:] -= d[:, 1:].mean(axis=0)
    d[:, 1:] /= np.maximum(d[:, 1:].std(axis=0), 1e-300)
    t = z[k:]
    if n - k > k + 1 and np.linalg.cond(d) < 1e4 and var(t) > 1e-12 * t.mean() ** 2:
        e = residuals(d, t)
        o["heterogeneity"] = (n - k) * (1 - e @ e / ((t - t.mean()) @ (t - t.mean())))
    lo, hi = y.min(), y.max()
    edges = np.array([lo + (hi - lo) * i / p["nbins"] for i in range(p["nbins"] + 1)])
    if min(np.abs(v - edges[1:-1]).min() for v in y) > 1e-9 * (hi - lo):
        cnt = [((y >= a) & ((y < b) | (i == p["nbins"] - 1))).sum() for i, (a, b) in enumerate(zip(edges[:-1], edges[1:]))]
        o["histogram_mode"] = edges[int(np.argmax(cnt))]
    o["linearity"] = float(np.corrcoef(x, y)[0, 1] ** 2)
    return {k: v for k, v in o.items() if v is not None}


def stl(y, p):
    r = STL(y, period=p["stl_period"]).fit()
    s, t, e = (np.asarray(v, float) for v in (r.seasonal, r.trend, r.resid))
    n, tot, sq = len(e), e.sum(), (e ** 2).sum()
    one = [var(np.delete(e, i)) for i in range(n)]
    first = s[:p["stl_period"]]
    return {"trend_strength": 1 - var(e) / var(t + e), "seasonality_strength": 1 - var(e) / var(s + e), "spikiness": var(one),
            "peak": int(np.flatnonzero(first == first.max())[0]), "trough": int(np.flatnonzero(first == first.min())[0])}


def shift(y, p):
    w, n = p["window_size"], len(y)
    if n < w + 2:
        return dict.fromkeys(GROUPS["level_shift_features"], math.nan)
    d = [abs(y[i:i + w].mean() - y[i + 1:i + 1 + w].mean()) for i in range(n - w)]
    o = {"level_shift_size": max(d)}
    top = sorted(d)
    if len(d) == 1 or top[-1] - top[-2] > 1e-9 * np.abs(y).max():
        o["level_shift_idx"] = int(np.argmax(d))
    return o


def correlations(y, p):
    n, k = len(y), p["stl_period"]
    if n < 10 or n < k:
        return dict.fromkeys(GROUPS["acfpacf_features"], math.nan)
    if n < k + 3:
        return {}
    lag = min(p["acfpacf_lag"], n - 2)
    most = [min(a, m // 2 - 1) for a, m in ((k, n), (lag, n - 1), (lag, n - 2))]
    d1, d2 = np.diff(y), np.diff(y, 2)
    if n < lag + 4 or np.abs(d2).max() < 1e-9 * np.abs(y).max() or np.abs(d1 - d1.mean()).max() < 1e-9 * np.abs(y).max():
        return {}
    a, a1, a2, q, q1, q2 = acfs(y, k), acfs(d1, lag), acfs(d2, lag), pacfs(y, most[0]), pacfs(d1, most[1]), pacfs(d2, most[2])
    o = {"y_acf1": a[0], "y_acf5": (a[:5] ** 2).sum(), "diff1y_acf1": a1[0], "diff1y_acf5": (a1[:5] ** 2).sum(), "diff2y_acf1": a2[0],
         "diff2y_acf5": (a2[:5] ** 2).sum(), "seas_acf1": a[-1], "seas_pacf1": q[-1] if most[0] == k else math.nan, "y_pacf5": (q[:5] ** 2).sum(),
         "diff1y_pacf5": (q1[:5] ** 2).sum(), "diff2y_pacf5": (q2[:5] ** 2).sum()}
    if max(np.abs(q).max(), np.abs(q1).max(), np.abs(q2).max()) > 30:      # the equations are nearly singular
        o = {k: v for k, v in o.items() if "pacf" not in k}
    return o


def special(y):
    a = acfs(y, len(y) - 1)
    o, i = {}, 0
    if np.abs(np.diff(a)).min() > 1e-9:
        while i < len(a) - 1 and a[i] > a[i + 1]:
            i += 1
        o["firstmin_ac"] = i + 1
    cross = [j for j in range(len(a) - 1) if a[j] > 0 > a[j + 1]]
    if np.abs(a).min() > 1e-9 and a[0] > 0 and cross:
        o["firstzero_ac"] = cross[0] + 2
    return o


def smoothing(y, p, which):
    try:
        if which == "holt_params":
            m = ExponentialSmoothing(y, trend="add", seasonal=None, initialization_method="estimated").fit().params
        else:
            m = ExponentialSmoothing(y, trend="add", seasonal="add", seasonal_periods=p["stl_period"], use_boxcox=True,
                                     initialization_method="estimated").fit().params
    except Exception:
        return dict.fromkeys(GROUPS[which], math.nan)
    names = ["smoothing_level", "smoothing_trend", "smoothing_seasonal"]
    return {f: m[k] for f, k in zip(GROUPS[which], names)}


def ema(v, span, first):
    """weighted means of everything so far, from the first-th value on"""
    a = 1 - 2 / (span + 1)
    out = np.full(len(v), math.nan)
    for i in range(first - 1, len(v)):
        w = a ** np.arange(i, -1, -1)
        out[i] = (w * v[:i + 1]).sum() / w.sum()
    return out


def finite(v):
    return float(np.where(np.isfinite(v), v, 0.0).mean())


def nowcasting(y, p):
    w, n = p["window"], len(y)
    if n < p["n_slow"] + 12:
        return {}
    with np.errstate(all="ignore"):
        roc = (y[w - 1:] - y[:n - w + 1]) / y[:n - w + 1]
    o = {"nowcast_roc": finite(roc), "nowcast_mom": finite(y[w:] - y[:-w]), "nowcast_lag": finite(y[:-w]),
         "nowcast_ma": finite(np.array([y[i:i + w].mean() for i in range(n - w + 1)]))}
    macd = ema(y, p["n_fast"], p["n_slow"] - 1) - ema(y, p["n_slow"], p["n_slow"] - 1)
    o["nowcast_macd"] = float(np.nanmean(macd))
    o["nowcast_macdsign"] = o["nowcast_macddiff"] = math.nan
    if n >= 27:
        ok = macd[~np.isnan(macd)]
        sign = np.r_[np.full(n - len(ok), math.nan), ema(ok, 9, 8)]
        o["nowcast_macdsign"], o["nowcast_macddiff"] = float(np.nanmean(sign)), float(np.nanmean(macd - sign))
    return o


def detectors(x, y, p, which):
    nan = dict.fromkeys(GROUPS[which], math.nan)
    try:
        if which == "cusum_detector":
            cps = CUSUMDetector(x).detector()
            if not cps:
                return dict.fromkeys(GROUPS[which], 0)
            k = cps[0]
            return {"cusum_num": len(cps), "cusum_conf": k.confidence, "cusum_cp_index": k.cp_index / len(y), "cusum_delta": k.delta,
                    "cusum_llr": k.llr, "cusum_regression_detected": k.regression_detected,
                    "cusum_stable_changepoint": k.stable_changepoint, "cusum_p_value": k.p_value}
        if which == "robust_stat_detector":
            cps = RobustStatDetector(x).detector()
            return {"robust_num": len(cps), "robust_metric_mean": sum(k.metric for k in cps) / len(cps) if cps else math.nan}
        if which == "bocp_detector":
            conf = [k.confidence for k in BOCPDetector(x).detector(choose_priors=False)]
            return {"bocp_num": len(conf), "bocp_conf_max": max(conf) if conf else 0, "bocp_conf_mean": sum(conf) / len(conf) if conf else 0}
        if which == "outlier_detector":
            d = OutlierDetector(x, decomp=p["decomp"], iqr_mult=p["iqr_mult"])
            d.detector()
            return {"outlier_num": len(d.outliers[0])}
        if which == "trend_detector":
            cps = MKDetector(x, threshold=p["threshold"]).detector(direction="both")
            return {"trend_num": len(cps), "trend_num_increasing": sum(k.trend_direction == "increasing" for k in cps),
                    "trend_avg_abs_tau": sum(abs(k.Tau) for k in cps) / len(cps) if cps else 0}
        d = FFTDetector(ts(range(len(y) - 1), np.diff(y))).detector()
        k = int(min(d["seasonalities"])) if d["seasonality_presence"] else 7
        r = STL(y, period=k).fit()
        t = np.asarray(r.trend) - r.trend[0]
        i = np.arange(len(t))
        q = np.quantile(r.seasonal, [0.05, 0.95])
        return {"seasonal_period": k, "trend_mag": (i @ t) / (i @ i), "residual_std": math.sqrt(var(r.resid)), "seasonality_mag": q[1] - q[0]}
    except Exception:
        return nan


def calendar(t):
    d = [pd.Timestamp(v).to_pydatetime() for v in t]
    iso = [v.isocalendar() for v in d]
    n = len(d)
    utc = [v.utcoffset() for v in d]
    o = {"time_years": {v.year for v in d}, "time_months": {(v.year, v.month) for v in d}, "time_monthsofyear": {v.month for v in d},
         "time_weeks": {(v[0], v[1]) for v in iso}, "time_weeksofyear": {v[1] for v in iso}, "time_days": {v.date() for v in d},
         "time_daysofyear": {v.timetuple().tm_yday for v in d}}
    o = {k: len(v) for k, v in o.items()}
    o["time_avg_timezone_offset"] = sum(v.total_seconds() for v in utc) / n if utc[0] is not None else 0.0
    o["time_length_days"] = int((max(d) - min(d)).total_seconds() // 86400) if utc[0] is None else \
        int((max(d).astimezone(timezone.utc) - min(d).astimezone(timezone.utc)).total_seconds() // 86400)
    for i, f in enumerate(GROUPS["time"][9:]):
        o[f] = sum(v.weekday() == i for v in d) / n
    return o


def wanted(x, y, p, groups):
    o = {}
    for g in groups:
        if g == "statistics":
            o.update(statistics(y, p))
        elif g == "stl_features":
            o.update(stl(y, p))
        elif g == "level_shift_features":
            o.update(shift(y, p))
        elif g == "acfpacf_features":
            o.update(correlations(y, p))
        elif g == "special_ac":
            o.update(special(y))
        elif g in ("holt_params", "hw_params"):
            o.update(smoothing(y, p, g))
        elif g == "nowcasting":
            o.update(nowcasting(y, p))
        elif g == "time":
            o.update(calendar(x.time))
        else:
            o.update(detectors(x, y, p, g))
    return o


def agree(c, got, want, what, y, rtol=1e-6, **kw):
    scale = {"var": 2, "lumpiness": 4, "stability": 2, "spikiness": 4}
    size = float(np.abs(y).max())
    for f, w in want.items():
        g = got[f]
        if f == "seasonality_mag":
            c.check((math.isnan(w) and math.isnan(g)) or abs(g - w) <= 0.5 + 1e-6 * abs(w), what, feature=f, got=g, want=w, **kw)
            continue
        c.close(float(g), float(w), what, rtol=rtol, atol=1e-9 * max(1e-30, size) ** scale.get(f, 1) if f in scale else 1e-9 * max(1.0, size),
                feature=f, **kw)
    c.event("feature values judged", len(want))


def same(c, got, want, what, **kw):
    c.check(set(got) == set(want), what, names=sorted(set(got) ^ set(want)), **kw)
    for f in got:
        g, w = float(got[f]), float(want[f])
        c.check(g == w or (math.isnan(g) and math.isnan(w)) or abs(g - w) <= 1e-12 * abs(w), what, feature=f, got=g, want=w, **kw)


def formulas(c):
    n = c.choice([5, 8, 9, 10, 15, 22, 30, 47, 60, 100, 150])
    y, t, p = values(c, n), times(c, n, c.choice([None, None, None, "US/Pacific"])), params(c, n)
    groups = [g for g in GROUPS if c.chance(0.45)] or ["statistics"]
    if n <= 2 * p["stl_period"] and "stl_features" in groups:
        groups.remove("stl_features")
    if c.chance(0.85) or n > 100:      # the slow ones seldom
        groups = [g for g in groups if g not in ("bocp_detector", "trend_detector", "hw_params")]
    if not groups:
        groups = ["statistics"]
    if t.tz is not None:
        groups = [g for g in groups if g in ("time", "statistics", "special_ac", "level_shift_features")] or ["time"]
    x = ts(t, y)
    c.note(n=n, groups=groups, params=p)
    before = x.to_dataframe().copy()
    tf = TsFeatures(selected_features=groups, **p)
    try:
        got = run(tf, x)
    except np.linalg.LinAlgError:
        raise Skip("the Hurst fit has no solution")
    c.check(x.to_dataframe().equals(before), "the features change the caller's data", groups=groups)
    names = [f for g in groups for f in GROUPS[g]]
    c.check(set(got) == set(names), "the features reported are not those of the selected groups", groups=groups, names=sorted(set(got) ^ set(names)))
    agree(c, got, wanted(x, y, p, groups), "a feature is not what it is documented to be", y, groups=groups, n=n, params=p)
    c.event("series described")
    c.state("formulas", tuple(groups), n > 20)


def winters(c):
    """The parameters of exponential smoothing on positive seasonal series (the only ones that have them)."""
    p = params(c, 40)
    p["stl_period"] = c.choice([4, 5, 7])
    n = p["stl_period"] * c.int(5, 8) + c.int(0, 3)
    y = np.abs(30 + 0.2 * np.arange(n) + 6 * np.sin(2 * np.pi * np.arange(n) / p["stl_period"]) + c.rng.normal(0, 1, n)) + 1
    c.note(n=n, params=p)
    x = ts(times(c, n), y)
    want = smoothing(y, p, "hw_params")
    got = run(TsFeatures(selected_features=["hw_params"], **p), x)
    agree(c, got, want, "a smoothing parameter is not what it is documented to be", y, rtol=1e-4, n=n, params=p)
    if np.isfinite(list(want.values())).all():
        c.event("smoothing parameters judged", 3)
    c.state("winters", n)


def selection(c):
    n = c.choice([30, 45, 60])
    y, t, p = values(c, n), times(c, n), params(c, n)
    p["stl_period"] = c.choice([4, 7])
    p["n_slow"] = c.choice([12, 18])
    x = ts(t, y)
    pool = [g for g in CHEAP if c.chance(0.6)] or ["statistics"]
    full = TsFeatures(selected_features=pool, **p)
    feats = [f for g in pool for f in GROUPS[g]]
    way = c.choice(["features", "features", "mixed", "out of the group", "default", "default out"])
    out = []
    if way == "features":
        pick = [f for f in feats if c.chance(c.choice([0.1, 0.4]))] or [feats[0]]
        kw, want = {"selected_features": list(pick)}, pick
    elif way == "mixed":
        some = [g for g in pool if c.chance(0.4)]
        pick = [f for f in feats if F2G[f] not in some and c.chance(0.2)]
        if not some and not pick:
            pick = [feats[0]]
        names = some + pick
        c.rng.shuffle(names)
        kw, want = {"selected_features": names}, pick + [f for g in some for f in GROUPS[g]]
    elif way == "out of the group":
        out = [f for f in feats if c.chance(0.2)]
        kw, want = {"selected_features": list(pool), **{f: False for f in out}}, [f for f in feats if f not in out]
    elif way == "default":
        kw, want = {}, [f for g in DEFAULT for f in GROUPS[g]]
    else:
        gout = [g for g in DEFAULT if c.chance(0.3)]
        more = [g for g in CHEAP if g not in DEFAULT and c.chance(0.4)]
        live = [g for g in DEFAULT + more if g not in gout]
        out = [f for g in live for f in GROUPS[g] if c.chance(0.1)]
        kw = {**{g: False for g in gout}, **{g: True for g in more}, **{f: False for f in out}}
        want = [f for g in live for f in GROUPS[g] if f not in out]
    c.note(way=way, kw=kw, pool=pool)
    tf = TsFeatures(**kw, **p)
    other = TsFeatures(**c.choice([{"selected_features": ["mean"]}, {"statistics": False}, {"selected_features": ["time", "nowcasting"]}]), **p)
    order = [("tf", tf), ("full", full), ("other", other)]
    res = {}
    for i in c.rng.permutation(3):
        res[order[i][0]] = run(order[i][1], x)
    c.check(set(res["tf"]) == set(want), "the features reported are not those asked for", way=way, kw=kw,
            names=sorted(set(res["tf"]) ^ set(want)))
    if way.startswith("default"):
        ref = run(TsFeatures(**{g: True for g in GROUPS if g in CHEAP or g in DEFAULT}, **p), x)
    else:
        ref = res["full"]
    same(c, res["tf"], {f: ref[f] for f in want}, "a feature depends on what else is selected", way=way, kw=kw)
    same(c, run(tf, x), res["tf"], "a feature changes when it is computed again", way=way)
    c.event("selections judged")
    c.state("selection", way, len(want) // 5, tuple(pool))


def columns(c):
    n, k = c.choice([12, 30, 50]), c.choice([2, 3])
    t, p = times(c, n), params(c, n)
    p["stl_period"] = c.choice([2, 4])
    cols = {name: values(c, n) for name in ["b", "a", "c c"][:k]}
    x = TimeSeriesData(pd.DataFrame({"time": t, **cols}))
    groups = [g for g in CHEAP if c.chance(0.5)] or ["statistics"]
    before = x.to_dataframe().copy()
    tf = TsFeatures(selected_features=list(groups), **p)
    got = run(tf, x)
    c.check(isinstance(got, list) and len(got) == k, "several columns do not get one set of features each", n=n)
    c.check(x.to_dataframe().equals(before), "the features change the caller's data", groups=groups)
    for i, name in enumerate(cols):
        one = run(TsFeatures(selected_features=list(groups), **p), ts(t, cols[name]))
        same(c, got[i], one, "the features of a column are not those of the column alone", column=name, groups=groups)
    c.event("columns judged", k)
    c.state("columns", k, tuple(groups))


ATTRS = ["minute", "hour", "day", "weekday", "dayofyear", "week", "month", "quarter", "year", "weekofyear", "minuteofday"]


def dates(c):
    n = c.choice([1, 5, 30])
    tz = c.choice([None, None, "US/Pacific"])
    t = times(c, n, tz) + pd.Timedelta(minutes=c.int(0, 3000))
    how = c.choice(["series", "text", "data"]) if tz is None else c.choice(["series", "data"])
    if how == "data" and n == 1:
        how = "series"
    src = {"series": lambda: pd.Series(t), "text": lambda: pd.Series([str(v) for v in t]), "data": lambda: ts(t, np.zeros(n))}[how]()
    d = [pd.Timestamp(v) for v in t]
    if c.chance(0.5):
        attrs = [a for a in ATTRS if c.chance(0.5)] or ["week"]
        c.rng.shuffle(attrs)
        f = {"minute": lambda v: v.minute, "hour": lambda v: v.hour, "day": lambda v: v.day, "weekday": lambda v: v.weekday(),
             "dayofyear": lambda v: v.timetuple().tm_yday, "week": lambda v: "%04d-%02d" % v.to_pydatetime().isocalendar()[:2], "month": lambda v: v.month,
             "quarter": lambda v: (v.month + 2) // 3, "year": lambda v: v.year, "weekofyear": lambda v: v.to_pydatetime().isocalendar()[1],
             "minuteofday": lambda v: v.hour * 60 + v.minute}
        want = [[f[a](v) for a in attrs] for v in d]
        cf = TsCalenderFeatures(list(attrs))
        got, raw = cf.get_features(src), cf.get_features(src, raw=True)
        c.check(list(got.columns) == attrs and len(got) == n, "the calendar features are not those asked for", got=list(got.columns), want=attrs)
        for name, g in (("frame", got.values.tolist()), ("raw", raw.tolist())):
            bad = [(i, a, g[i][j], want[i][j]) for i in range(n) for j, a in enumerate(attrs) if g[i][j] != want[i][j]]
            c.check(not bad, "a calendar feature is not that of the time", how=how, form=name, first=bad[:1])
        c.event("calendar features judged", n * len(attrs))
        c.state("calendar", how, tuple(sorted(attrs)), tz)
        return
    m = c.choice([1, 2, 3])
    per = [c.choice([7, 24, 365.25, 12.5, 3600]) for _ in range(m)]
    way = c.choice(["list", "number", "scalar"])
    order = [c.int(1, 4) for _ in range(m)] if way == "list" else [c.int(1, 4)] * m
    off = c.choice([1, 60, 3600, 86400, 0.5])
    if way == "scalar":
        per, order = per[:1], order[:1]
    ff = TsFourierFeatures(per[0] if way == "scalar" else list(per), list(order) if way == "list" else order[0], off)
    got, raw = ff.get_features(src), ff.get_features(src, raw=True)
    names, want = [], []
    sec = np.array([(v.to_pydatetime() - datetime(1970, 1, 1)).total_seconds() if v.tzinfo is None
                    else (v.to_pydatetime() - datetime(1970, 1, 1, tzinfo=timezone.utc)).total_seconds() for v in d]) / off
    for q, r in zip(per, order):
        for j in range(1, r + 1):
            ang = 2 * math.pi * np.mod(sec * j, q) / q
            names += [f"{q}_{j}_sin", f"{q}_{j}_cos"]
            want += [np.sin(ang), np.cos(ang)]
    c.check(list(got.columns) == names, "the Fourier features have other names", got=list(got.columns), want=names)
    tol = 1e-14 * float(np.abs(sec).max()) * 2 * math.pi * max(order) / min(per) + 1e-9
    c.close(got.values, np.column_stack(want), "a Fourier feature is not the wave of its period and order", rtol=0, atol=tol, how=how, periods=per,
            order=order, offset=off)
    c.close(raw, got.values, "the raw Fourier features differ", rtol=0, atol=0)
    c.event("Fourier features judged", len(names))
    c.state("fourier", how, way, m, off)


def refused(c):
    what = c.choice(["short", "unknown", "unknown switch", "contradiction", "group off", "calendar", "fourier lengths", "offset"])
    c.note(what=what)
    if what == "short":
        n = c.int(1, 4)
        x = ts(pd.date_range("2021-01-01", periods=n, freq="D"), np.arange(float(n)))
        c.raises(ValueError, "a series with less than five points is described", TsFeatures().transform, x)
    elif what == "unknown":
        c.raises(ValueError, "an unknown feature is selected", TsFeatures, selected_features=["mean", c.choice(["median", "Mean", "stats"])])
    elif what == "unknown switch":
        c.raises(ValueError, "an unknown feature is switched", TsFeatures, **{c.choice(["median", "acf"]): c.choice([True, False])})
    elif what == "contradiction":
        f = c.choice(list(F2G))
        c.raises(ValueError, "a feature is both selected and excluded", TsFeatures, selected_features=[f], **{f: False})
    elif what == "group off":
        f = c.choice(list(F2G))
        c.raises(ValueError, "a feature of an excluded group is selected", TsFeatures, selected_features=[f], **{F2G[f]: False})
    elif what == "calendar":
        x = pd.Series(pd.date_range("2021-01-01", periods=3))
        c.raises(ValueError, "an unknown calendar feature is computed", TsCalenderFeatures(["year", c.choice(["century", "days", "date"])]).get_features, x)
    elif what == "fourier lengths":
        c.raises(AssertionError, "orders without periods are taken", TsFourierFeatures, [7, 30], c.choice([[1], [1, 2, 3]]))
    else:
        c.raises(AssertionError, "an offset that is not positive is taken", TsFourierFeatures, 7, 2, c.choice([0, -1, 0.0]))
    c.state("refused", what)


SCENARIOS = [("formulas", 260, 2500, formulas), ("winters", 8, 80, winters), ("selection", 120, 900, selection), ("columns", 40, 300, columns), ("dates", 150, 900, dates),
             ("refused", 50, 200, refused)]
NEED = {"feature values judged": 4000, "series described": 150, "selections judged": 80, "columns judged": 60, "calendar features judged": 1500,
        "Fourier features judged": 300, "smoothing parameters judged": 9, "refusals observed": 30}
