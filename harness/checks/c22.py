"""C22: detectors based on forecasts: Prophet scores, trend changes, residual probabilities."""
import contextlib
import logging
import math
import os

import numpy as np
import pandas as pd
from kats.consts import DataError, DataInsufficientError, InternalError, ParameterError, TimeSeriesData
from kats.detectors.prophet_detector import GrowthType, ProphetDetectorModel, ProphetTrendDetectorModel, SeasonalityTypes as S
from kats.detectors.residual_translation import KDEResidualTranslator
from prophet import Prophet
from prophet.make_holidays import make_holidays_df
from scipy import stats

logging.getLogger("cmdstanpy").disabled = True

PROPERTY = "C22"
RULE = ("random seasonal series (hourly to daily, with trends, holidays, planted outliers, gaps) through the Prophet "
        "detector with every score, seasonality, holiday, exclusion, growth and outlier setting; residuals of many "
        "shapes through the KDE translator; distinct = (setting, sizes) signature")
ASSUMPTIONS = ["Prophet and scikit-learn's cross-validated choice of a bandwidth are trusted: the detector must use "
               "them with the documented settings and data",
               "serialized Prophet models cannot be restored by the libraries installed here and are not judged",
               "time zones are not judged (Prophet refuses them)"]
JOBS = 8


@contextlib.contextmanager
def quiet():
    keep = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1), os.dup2(null, 2)
    try:
        yield
    finally:
        os.dup2(keep[0], 1), os.dup2(keep[1], 2)
        for f in keep + (null,):
            os.close(f)


def series(c, n, freq, start):
    t = pd.date_range(start, periods=n, freq=freq)
    per = {"H": 24, "30min": 48, "D": 7, "2H": 12}[freq]
    x = np.arange(n)
    y = c.choice([10.0, 100.0]) + c.choice([0, 0.01, -0.02]) * x + c.choice([0, 2.0, 4.0]) * np.sin(2 * np.pi * x / per) \
        + c.choice([0.3, 1.0]) * c.rng.normal(0, 1, n)
    y += np.where(t.weekday > 4, c.choice([0.0, 3.0]), 0.0)
    return t, y


def ts(t, y):
    return TimeSeriesData(pd.DataFrame({"time": list(t), "value": list(y)}))


def settings(c, n, t, y):
    """(detector arguments, expected Prophet arguments, weekend seasonality used, extra)."""
    a, p = {}, {"growth": "linear"}
    a["score_func"] = c.choice(["deviation_from_predicted_val", "z_score", "z_score"])
    ci = c.choice([0.8, 0.8, 0.5, 0.95])
    if ci != 0.8 or c.chance(0.5):
        a["scoring_confidence_interval"] = ci
    p["interval_width"] = ci
    if c.chance(0.4):
        a["uncertainty_samples"] = c.choice([20, 100])
    p["uncertainty_samples"] = a.get("uncertainty_samples", 50) if a["score_func"] == "z_score" else 0
    if c.chance(0.4):
        a["use_legacy_z_score"] = c.chance(0.5)
    if c.chance(0.3):
        a["vectorize"] = True
    season = {S.DAY: "auto", S.WEEK: "auto", S.YEAR: "auto", S.WEEKEND: False}
    kind = c.choice(["none", "none", "one", "list", "strings", "dict", "weekend", "weekend auto"])
    span = t[-1] - t[0]
    pick = [s for s in (S.DAY, S.WEEK) if c.chance(0.5)]
    if kind == "one":
        s = c.choice([S.DAY, S.WEEK])
        a["seasonalities"], season[s] = s, True
    elif kind == "list":
        a["seasonalities"] = pick
        season.update({s: True for s in pick})
    elif kind == "strings":
        a["seasonalities"] = [c.choice([s.name, s.name.lower()]) for s in pick]
        season.update({s: True for s in pick})
    elif kind == "dict":
        d = {s: c.choice([True, False, "auto"]) for s in (S.DAY, S.WEEK)}
        a["seasonalities"] = d
        season.update(d)
    elif kind == "weekend":
        a["seasonalities"] = {S.WEEKEND: True}
        season.update({S.WEEKEND: True, S.WEEK: False})
    elif kind == "weekend auto":
        a["seasonalities"] = {S.WEEKEND: "auto"}
        used = span >= pd.Timedelta(weeks=2)
        season.update({S.WEEKEND: used, S.WEEK: False if used else "auto"})
    for s, k in ((S.DAY, "daily"), (S.WEEK, "weekly"), (S.YEAR, "yearly")):
        p[k + "_seasonality"] = season[s]
    hol = c.choice(["none", "none", "list", "dict", "country"])
    days = pd.DatetimeIndex(sorted(set(t.floor("D"))))
    if hol in ("list", "dict"):
        some = [days[c.int(0, len(days) - 1)] for _ in range(c.int(1, 3))]
        if c.chance(0.7):
            some.append(days[-1])
        some = sorted({d.strftime("%Y-%m-%d") for d in some})
        if hol == "list":
            a["holidays_list"] = some
            p["holidays"] = pd.DataFrame({"ds": some, "holiday": ["holiday"] * len(some)})
        else:
            names = [c.choice(["game", "sale"]) for _ in some]
            a["holidays_list"] = {"ds": some, "holiday": names}
            p["holidays"] = pd.DataFrame(a["holidays_list"])
    elif hol == "country":
        a["country_holidays"] = c.choice(["US", "DE"])
    if c.chance(0.6 if hol != "none" else 0.1):
        a["holiday_multiplier"] = c.choice([0.0, 0.5, 2.0, 1.0])
    cap = None
    g = c.choice(["none", "none", "flat", "saturation", "logistic"])
    if g == "flat":
        a["growth_type"] = c.choice(["flat", GrowthType.flat])
        p["growth"] = "flat"
    elif g in ("saturation", "logistic"):
        cap = [float(math.floor(y.min()) - 5), float(math.ceil(y.max()) + 20)]
        a["saturation_range"] = cap
        p["growth"] = "logistic"
        if g == "logistic":
            a["growth_type"] = "logistic"
    return a, p, bool(season[S.WEEKEND]), cap, kind, hol, g


def weekend(df):
    df["weekend_mask"] = df.ds.dt.weekday > 4
    df["workday_mask"] = df.ds.dt.weekday <= 4


def reference(p, a, df, masks, cap, when):
    """The forecast of Prophet with the documented settings."""
    p = dict(p, uncertainty_samples=0)
    m = Prophet(**p)
    if a.get("country_holidays"):
        m.add_country_holidays(a["country_holidays"])
    df = df.copy()
    if cap:
        df["floor"], df["cap"] = cap
    f = pd.DataFrame({"ds": when})
    if cap:
        f["floor"], f["cap"] = cap
    if masks:
        weekend(df), weekend(f)
        for k in ("weekend_mask", "workday_mask"):
            m.add_seasonality(name=k, period=7, fourier_order=3, condition_name=k)
    with quiet():
        m.fit(df)
        return m.predict(f).yhat.values


def scores(a, p, x, yhat, lo, hi, when, holidays):
    if a["score_func"] == "z_score":
        w = hi - lo
        ci = p["interval_width"]
        const = stats.norm.ppf(0.9) / 0.8
        big = math.sqrt(50) * const / 2
        if a.get("use_legacy_z_score", True):
            sd = math.sqrt(50) / 2 * w / ci
        else:
            sd = big * w / stats.norm.ppf(ci / 2 + 0.5)
        s = (x - yhat) / np.maximum(sd, 1e-9)
    else:
        s = (x - yhat) / np.abs(yhat)
    k = a.get("holiday_multiplier")
    if k is not None and holidays is not None:
        on = np.array([d.date() in holidays for d in when])
        s = np.where(on, s * k, s)
        return s, int(on.sum())
    return s, 0


def detector(c):
    freq = c.choice(["H", "D", "30min", "2H"])
    n = c.int(80, 260) if freq != "D" else c.int(30, 150)
    k = c.choice([1, 2, c.int(3, 40)])
    t, y = series(c, n + k, freq, c.choice(["2021-12-10", "2022-06-20", "2023-03-01 06:00"]))
    hist_t, hist_y, data_t, data_y = t[:n], y[:n].copy(), t[n:], y[n:].copy()
    if c.chance(0.5):
        data_y[c.int(0, k - 1)] += c.choice([20.0, -8.0])
    a, p, masks, cap, kind, hol, g = settings(c, n, hist_t, hist_y)
    drop = np.ones(n, bool)
    ranges = None
    if c.chance(0.25) and kind != "weekend auto":
        ranges = []
        for _ in range(c.int(1, 2)):
            i = c.int(0, n - 10)
            j = min(n - 1, i + c.int(0, n // 5))
            r = [hist_t[i], hist_t[j]]
            if c.chance(0.4):
                r = [int(x.timestamp()) for x in r]
            ranges.append(r)
            drop &= ~((hist_t >= hist_t[i]) & (hist_t <= hist_t[j]))
        a["exclude_training_ranges"] = ranges
    gross = []
    if c.chance(0.3):
        a["remove_outliers"] = True
        for _ in range(c.int(1, 2)):
            i = c.int(n // 4, n - 2)
            hist_y[i] += 400 * c.choice([1, -1]) if not cap else 0
            gross.append(i)
    c.note(freq=freq, n=n, k=k, args={q: str(v) for q, v in a.items()})
    det = ProphetDetectorModel(**a)
    hist, data = ts(hist_t, hist_y), ts(data_t, data_y)
    split = c.choice([0, 0, c.int(1, n - 1)])
    if c.chance(0.2):
        data = ts(t, np.r_[hist_y, data_y])[n:]
        c.event("data sliced from longer series")
    before = hist.to_dataframe().copy()
    seed = c.int(0, 9999)
    np.random.seed(seed)
    if split:
        h0, h1 = ts(hist_t[:split], hist_y[:split]), ts(hist_t[split:], hist_y[split:])
        det.fit(h1, h0)
        c.check(len(h0) == split and len(h1) == n - split, "fitting extends the caller's history", got=len(h0), want=split)
        resp = det.predict(data)
        c.event("history given apart")
    elif c.chance(0.5):
        resp = det.fit_predict(data, hist)
    else:
        det.fit(hist)
        resp = det.predict(data)
    c.check(hist.to_dataframe().equals(before), "the caller's history changes")
    parts = [resp.scores, resp.predicted_ts, resp.confidence_band.lower, resp.confidence_band.upper, resp.stat_sig_ts, resp.anomaly_magnitude_ts]
    c.check(all(list(x.time) == list(data_t) for x in parts), "the response does not cover the times of the data")
    train = pd.DataFrame({"ds": hist_t, "y": hist_y})[drop].reset_index(drop=True)
    used = det.model.history[["ds", "y"]].reset_index(drop=True)
    if a.get("remove_outliers"):
        rows = dict(zip(train.ds, train.y))
        c.check(set(used.ds) <= set(rows) and all(rows[d] == v for d, v in zip(used.ds, used.y)), "the model is trained on rows that are not in the data")
        if not cap:
            left = [i for i in gross if drop[i] and hist_t[i] in set(used.ds)]
            if len(gross) == 1:
                c.check(not left, "a gross outlier stays in the training data", row=left)
            c.event("outliers planted", len(gross))
        c.check(len(used) >= 0.6 * len(train), "most of the training data are removed as outliers", kept=len(used), of=len(train))
        train = used
        c.event("training sets cleaned")
    else:
        c.check(len(used) == len(train) and (used.ds == train.ds).all() and np.array_equal(used.y.values, train.y.values),
                "the model is not trained on the given data without the excluded ranges", got=len(used), want=len(train))
    yhat = np.asarray(resp.predicted_ts.value, float)
    want = reference(p, a, train, masks, cap, data_t)
    scale = np.abs(train.y).max()
    c.check(np.allclose(yhat, want, rtol=1e-5, atol=1e-5 * scale), "the forecast is not Prophet's with the documented settings",
            got=yhat[:4].tolist(), want=want[:4].tolist())
    lo, hi = (np.asarray(getattr(resp.confidence_band, s).value, float) for s in ("lower", "upper"))
    if a["score_func"] == "z_score":
        c.check((lo <= hi).all(), "the confidence band is inverted")
        if k >= 10:
            c.check(((lo <= yhat) & (yhat <= hi)).mean() > 0.5, "the confidence band does not hold the forecast")
        resid = np.std(train.y.values - reference_fit(det, train, cap, masks))
        c.check(np.median(hi - lo) > 0.2 * 2 * resid * stats.norm.ppf(p["interval_width"] / 2 + 0.5),
                "the confidence band is far narrower than the residuals", width=float(np.median(hi - lo)), residual=float(resid))
    else:
        c.check(np.array_equal(lo, yhat) and np.array_equal(hi, yhat), "the band is not the forecast although no band is computed")
    holidays = None
    if a.get("holidays_list") or a.get("country_holidays"):
        holidays = set()
        if a.get("holidays_list"):
            holidays |= {pd.Timestamp(d).date() for d in p["holidays"].ds}
        if a.get("country_holidays"):
            holidays |= {pd.Timestamp(d).date() for d in make_holidays_df(year_list=sorted({d.year for d in data_t}), country=a["country_holidays"]).ds}
    s, on = scores(a, p, data_y, yhat, lo, hi, data_t, holidays)
    c.close(resp.scores.value, s, "the scores are not those of the forecast and the data", rtol=1e-7, atol=1e-9)
    c.event("scores judged", k)
    c.event("scores on holidays", on)
    np.random.seed(seed)
    again = det.predict(data)
    c.close(again.predicted_ts.value, yhat, "the same model forecasts other values the second time", rtol=1e-12)
    if k > 1:
        i = c.int(0, k - 1)
        one = det.predict(ts(data_t[i:i + 1], data_y[i:i + 1]))
        c.close(one.predicted_ts.value, yhat[i:i + 1], "the forecast of a moment depends on the other moments", rtol=1e-9)
        if a["score_func"] != "z_score":
            c.close(one.scores.value, s[i:i + 1], "the score of a moment depends on the other moments", rtol=1e-7, atol=1e-9)
        c.event("single moments")
    c.event("models fitted")
    c.state("detector", freq, a["score_func"], kind, hol, g, bool(ranges), bool(a.get("remove_outliers")), k > 2)


def reference_fit(det, train, cap, masks):
    f = pd.DataFrame({"ds": train.ds})
    if cap:
        f["floor"], f["cap"] = cap
    if masks:
        weekend(f)
    keep = det.model.uncertainty_samples
    det.model.uncertainty_samples = 0
    try:
        return det.model.predict(f).yhat.values
    finally:
        det.model.uncertainty_samples = keep


def trend(c):
    n = c.int(60, 200)
    t = pd.date_range("2021-01-01", periods=n, freq=c.choice(["D", "H"]))
    k = c.int(n // 3, 2 * n // 3)
    y = 10 + np.where(np.arange(n) < k, 0.1 * np.arange(n), 0.1 * k - c.choice([0.1, 0.5]) * (np.arange(n) - k)) + c.rng.normal(0, 0.3, n)
    a = {}
    if c.chance(0.5):
        a["changepoint_range"] = c.choice([0.8, 0.9])
    if c.chance(0.5):
        a["changepoint_prior_scale"] = c.choice([0.05, 0.3])
    if c.chance(0.4):
        a["weekly_seasonality"] = c.choice([True, False])
    c.note(n=n, k=k, args=a)
    resp = ProphetTrendDetectorModel(**a).fit_predict(ts(t, y))
    m = Prophet(changepoint_range=a.get("changepoint_range", 1.0), weekly_seasonality=a.get("weekly_seasonality", "auto"),
                changepoint_prior_scale=a.get("changepoint_prior_scale", 0.01))
    with quiet():
        m.fit(pd.DataFrame({"ds": t, "y": y}))
    want = np.zeros(n)
    delta = np.abs(m.params["delta"].mean(axis=0))
    for d, v in zip(m.changepoints, delta):
        want[list(t).index(d)] = v
    c.check(list(resp.scores.time) == list(t), "the response does not cover the times of the data")
    c.close(resp.scores.value, want, "the trend scores are not the changes of slope at the change points", rtol=1e-4, atol=1e-5)
    for x in (resp.predicted_ts, resp.anomaly_magnitude_ts):
        c.check(len(x) == n and (np.asarray(x.value) == 0).all(), "the placeholders are not zeros of the data's length")
    c.event("trends judged")
    c.state("trend", tuple(sorted(a.items())), n // 40)


def density(c):
    n = c.int(40, 200)
    kind = c.choice(["normal", "skewed", "two groups", "heavy"])
    r = {"normal": lambda: c.rng.normal(0, 1, n), "skewed": lambda: c.rng.gamma(2, 1, n),
         "two groups": lambda: np.r_[c.rng.normal(-3, 0.5, n // 2), c.rng.normal(2, 1, n - n // 2)],
         "heavy": lambda: c.rng.standard_t(3, n)}[kind]() * c.choice([1.0, 50.0])
    holes = c.chance(0.4)
    low, high = c.choice([(0, 1), (0.05, 0.95), (0.1, 1), (0, 0.9)])
    way = c.choice(["residual", "y", "band"])
    t = pd.date_range("2021-01-01", periods=n, freq="D")
    r = np.array(r)
    if holes:
        r[c.rng.choice(n, c.int(1, 6), replace=False)] = np.nan
    yhat = c.rng.normal(10, 2, n)
    half = c.rng.uniform(0.5, 2, n)
    y = yhat + r
    if way == "residual":
        kw = {"residual": ts(t, r)}
        res = r
    else:
        kw = {"y": ts(t, y), "yhat": ts(t, yhat)}
        res = y - yhat
        if way == "band":
            kw.update(yhat_lower=ts(t, yhat - half), yhat_upper=ts(t, yhat + half))
            res = res / ((yhat + half) - (yhat - half))
    c.note(n=n, kind=kind, way=way, ignore=(low, high), holes=int(np.isnan(res).sum()))
    copies = {k: v.to_dataframe().copy() for k, v in kw.items()}
    tr = KDEResidualTranslator(low, high)
    c.check(tr.fit(**kw) is tr, "fit does not return the translator")
    ok = ~np.isnan(res)
    v = res[ok]
    a, b = np.quantile(v, low), np.quantile(v, high)
    edge = (np.abs(v - a) < 1e-12 * (1 + abs(a))) | (np.abs(v - b) < 1e-12 * (1 + abs(b)))
    core_ = v[(v > a) & (v < b)]
    kde = tr.kde_
    got = np.sort(np.asarray(kde.tree_.data)[:, 0])
    lack = np.abs(got[:, None] - v[None, :]).min(axis=1).max()
    c.check(lack <= 1e-9 * (1 + np.abs(v).max()), "the density is fitted to values that are no residuals")
    c.check(abs(len(got) - len(core_)) <= int(edge.sum()), "the ignored quantiles are not left out", got=len(got), want=len(core_), low=low, high=high)
    ext = np.quantile(core_, 0.95) - np.quantile(core_, 0.05)
    c.check(ext / 1000 * (1 - 1e-6) <= kde.bandwidth_ <= ext / 10 * (1 + 1e-6), "the bandwidth lies outside the searched range", got=kde.bandwidth_, extent=ext)
    lp, pr = tr.predict_log_proba(**kw), tr.predict_proba(**kw)
    z = (v[:, None] - got[None, :]) / kde.bandwidth_
    with np.errstate(all="ignore"):
        q = -0.5 * z ** 2
        top = q.max(axis=1)
        want = top + np.log(np.exp(q - top[:, None]).sum(axis=1)) - math.log(len(got) * kde.bandwidth_ * math.sqrt(2 * math.pi))
    c.check(list(lp.time) == list(t[ok]) and list(pr.time) == list(t[ok]), "the probabilities do not belong to the rows of the residuals",
            got=len(lp), want=int(ok.sum()))
    c.close(lp.value, want, "the log probability is not that of the fitted density", rtol=1e-6, atol=1e-8)
    c.close(pr.value, np.exp(np.asarray(lp.value, float)), "the probability is not the exponential of its logarithm", rtol=1e-9)
    other = c.choice([r * 1.5, -r])
    x = tr.predict_log_proba(residual=ts(t, other))
    c.check(len(x) == int((~np.isnan(other)).sum()), "further residuals get another number of probabilities")
    for k, d in copies.items():
        c.check(kw[k].to_dataframe().equals(d), "the caller's data change", name=k, holes=holes)
    c.event("densities judged")
    c.event("probabilities judged", len(want))
    c.state("density", kind, way, low, high, holes)


def refused(c):
    t = pd.date_range("2021-01-01", periods=40, freq="D")
    x = ts(t, np.arange(40.0))
    what = c.choice(["predict first", "no history", "range order", "range size", "range type", "growth", "seasonality", "seasonality value", "exclude size",
                     "exclude none", "excluded all", "multivariate", "fractions", "yhat only", "both", "half band", "nothing", "trend"])
    c.note(what=what)
    if what == "predict first":
        c.raises(InternalError, "a prediction is made before fitting", ProphetDetectorModel().predict, x)
    elif what == "no history":
        c.raises(DataInsufficientError, "a model is fitted without history", ProphetDetectorModel().fit_predict, x)
    elif what.startswith("range"):
        r = {"range order": [c.choice([5.0, 7]), 5.0], "range size": c.choice([[1.0], [1, 2, 3]]), "range type": c.choice([(1, 2), ["1", 2]])}[what]
        c.raises(ValueError, "an impossible saturation range is taken", ProphetDetectorModel, saturation_range=r)
    elif what == "growth":
        c.raises(ParameterError, "an unknown growth type is taken", ProphetDetectorModel, growth_type=c.choice(["quadratic", "LINEAR"]))
    elif what == "seasonality":
        c.raises(ValueError, "an unknown seasonality is taken", ProphetDetectorModel, seasonalities=[c.choice(["month", "days"])])
    elif what == "seasonality value":
        c.raises(ParameterError, "an unknown seasonality setting is taken", ProphetDetectorModel(seasonalities={S.DAY: c.choice(["yes", 1.5])}).fit, x)
    elif what == "exclude size":
        c.raises(ValueError, "an excluded range without two ends is taken", ProphetDetectorModel(exclude_training_ranges=[[t[0]]]).fit, x)
    elif what == "exclude none":
        c.raises(ValueError, "an excluded range without an end is taken", ProphetDetectorModel(exclude_training_ranges=[[t[0], None]]).fit, x)
    elif what == "excluded all":
        c.raises(DataError, "a model is fitted although all data are excluded", ProphetDetectorModel(exclude_training_ranges=[[t[0], t[-1]]]).fit, x)
    elif what == "multivariate":
        m = TimeSeriesData(pd.DataFrame({"time": t, "a": np.arange(40.0), "b": np.arange(40.0)}))
        c.raises(DataError, "several columns are taken", ProphetDetectorModel().fit, m)
    elif what == "fractions":
        f = c.choice([(-0.1, 1), (0, 1.2), (0.6, 0.4)])
        c.raises(ValueError, "illegal fractions are taken", KDEResidualTranslator, *f)
    elif what == "trend":
        c.raises(NotImplementedError, "fit is not refused", ProphetTrendDetectorModel().fit, x, None)
        c.raises(NotImplementedError, "predict is not refused", ProphetTrendDetectorModel().predict, x, None)
    else:
        kw = {"yhat only": {"yhat": x}, "both": {"y": x, "yhat": x, "residual": x}, "half band": {"y": x, "yhat": x, "yhat_lower": x}, "nothing": {}}[what]
        c.raises(ValueError, "contradictory residuals are taken", KDEResidualTranslator().fit, **kw)
    c.state("refused", what)


SCENARIOS = [("detector", 80, 900, detector), ("trend", 14, 100, trend), ("density", 50, 400, density), ("refused", 50, 200, refused)]
NEED = {"models fitted": 45, "scores judged": 330, "scores on holidays": 10, "training sets cleaned": 7, "history given apart": 7, "single moments": 15,
        "trends judged": 8, "densities judged": 25, "probabilities judged": 1500, "refusals observed": 30}
