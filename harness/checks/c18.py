"""C18: multivariate anomalies against one-step forecasts."""
import math

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
from kats.detectors.multivariate_detector import MultivariateAnomalyDetectorModel
from kats.detectors.outlier import MultivariateAnomalyDetector, MultivariateAnomalyDetectorType
from kats.models.bayesian_var import BayesianVAR, BayesianVARParams
from kats.models.var import VARParams
from scipy import stats
from statsmodels.tsa.api import VAR

import gen
from checks.c13 import series
from core import Skip

PROPERTY = "C18"
RULE = ("random stable vector autoregressions (2-4 columns, daily to minutely) with planted outliers, every training "
        "length and lag setting, with and without history; distinct = (step, sizes, parameters) signature")
ASSUMPTIONS = ["the forecasting models themselves are those of statsmodels (VAR) and of C09 (Bayesian VAR)",
               "points within rounding of three standard deviations or of the significance level are set aside",
               "the p-value is that of the reported (unsquared) distance under chi-squared, as implemented"]

UNIT = {"D": 1.0, "H": 1 / 24, "5min": 1 / 288, "12H": 0.5}


def values(c, n, k):
    a = c.rng.normal(0, 0.25, (k, k))
    y = np.zeros((n, k))
    e = c.rng.normal(0, 1, (n, k))
    if c.chance(0.6):
        e = e @ c.rng.normal(0, 1, (k, k))
    for i in range(1, n):
        y[i] = a @ y[i - 1] + e[i]
    y = y * c.choice([1.0, 1.0, 100.0]) + c.choice([0, 50.0])
    for _ in range(c.int(0, 4)):
        y[c.int(0, n - 1), c.int(0, k - 1)] += c.choice([8.0, -12.0, 40.0]) * y.std()
    return y


def clean(v, c):
    """Values three standard deviations above the mean, replaced by interpolation."""
    v = v.copy()
    n, k = v.shape
    for q in range(k):
        x = v[:, q]
        m = math.fsum(x) / n
        s = math.sqrt(math.fsum((y - m) ** 2 for y in x) / n)
        z = [(y - m) / s for y in x]
        if min(abs(y - 3) for y in z) < 1e-9:
            raise ZeroDivisionError
        good = [i for i in range(n) if z[i] < 3]
        c.event("outliers cleaned", n - len(good))
        v[:, q] = np.interp(np.arange(n), good, x[good])
    return v


def step(c, v, t, cols, par, nxt):
    """(scores per column, distance, p-value) of the row after the window."""
    v = clean(v, c)
    if par.get("bayesian"):
        m = BayesianVAR(TimeSeriesData(pd.concat([pd.Series(t, name="time"), pd.DataFrame(v, columns=cols)], axis=1)),
                        BayesianVARParams(**par["bayesian"]))
        m.fit()
        f = np.array([float(m.predict(steps=1)[x].value["fcst"]) for x in cols])
        res, cov = np.asarray(m.resid, dtype=float), np.asarray(m.sigma_u, dtype=float)
    else:
        n = len(v)
        lags = par["maxlags"] if par["maxlags"] is not None else int(12 * (n / 100.0) ** 0.25)
        m = VAR(v).fit(maxlags=lags, method="ols", ic=par["ic"], trend=par["trend"])
        if not m.k_ar:
            raise Skip  # statsmodels cannot forecast without lags
        f = m.forecast(v[-m.k_ar:], 1)[0]
        res, cov = np.asarray(m.resid), np.asarray(m.sigma_u)
        c.state("lags", m.k_ar)
    if not (np.linalg.eigvals(cov) > 0).all():
        raise ZeroDivisionError
    r = f - nxt
    mean = res.mean(axis=0)
    sd = res.std(axis=0, ddof=1)
    z = np.abs(r - mean) / sd
    d = math.sqrt((r - mean) @ np.linalg.solve(cov, r - mean))
    return z, d, float(stats.chi2.sf(d, len(cols)))


def parameters(c):
    return {"maxlags": c.choice([1, 2, 2, 3, None]), "ic": c.choice([None, None, None, "aic", "bic"]), "trend": c.choice(["c", "c", "nc"])}


def make(c):
    freq = c.choice(list(UNIT))
    k = c.choice([2, 2, 3, 4])
    w = c.int(18, 30)  # steps of the training window
    n = w + c.int(2, 9)
    t = gen.regular(c, n, freq)
    names = gen.names(c, k)
    if c.chance(0.3):
        names = sorted(names)
    return freq, k, w, n, t, names, values(c, n, k)


def reference(c, v, t, w, names, par):
    out = []
    for i in range(w, len(v) - 1):
        # the window holds the training days and the moment itself
        out.append(step(c, v[i - w:i + 1], t[i - w:i + 1], names, par, v[i + 1]))
    return np.array([x[0] for x in out]), np.array([x[1] for x in out]), np.array([x[2] for x in out])


def scores(c):
    freq, k, w, n, t, names, v = make(c)
    par = parameters(c)
    if par["maxlags"] is None:
        if k > 2:
            par["maxlags"] = 2
        else:
            w, n = w + 16, w + 20
            t, v = pd.date_range(t[0], periods=n, freq=freq), values(c, n, k)
    bayes = c.chance(0.15)
    if bayes:
        par = {"bayesian": {"p": c.choice([1, 2])}}
    order = c.rng.permutation(n) if c.chance(0.2) else np.arange(n)
    ts = series(t[order], v[order], names, c.choice(gen.TIME_NAMES))
    snap = gen.Frozen(ts)
    c.note(freq=freq, k=k, window=w, n=n, par=par, names=names, shuffled=bool(order[0] != 0))
    try:
        z, dist, p = reference(c, v, t, w, names, par)
    except ZeroDivisionError:
        raise Skip
    if bayes:
        d = MultivariateAnomalyDetector(ts, BayesianVARParams(**par["bayesian"]), w * UNIT[freq],
                                        MultivariateAnomalyDetectorType.BAYESIAN_VAR)
        c.event("Bayesian detections")
    else:
        d = MultivariateAnomalyDetector(ts, VARParams(**par), w * UNIT[freq])
    got = d.detector()
    c.event("detections")
    c.check(list(got.columns) == names + ["overall_anomaly_score", "p_value"], "columns", got=list(got.columns), want=names)
    c.check(list(pd.DatetimeIndex(got.index)) == list(t[w + 1:]), "times of the scores", got=list(got.index), want=list(t[w + 1:]))
    c.close(got[names].to_numpy(), z, "score of each metric", rtol=1e-5, atol=1e-6)
    c.close(got["overall_anomaly_score"], dist, "overall score", rtol=1e-5, atol=1e-6)
    c.close(got["p_value"], p, "p-values", rtol=1e-5, atol=1e-9)
    c.event("moments scored", len(p))
    for _ in range(2):
        alpha = c.choice([0.05, 0.1, 0.3, 0.6])
        if min(abs(x - alpha) for x in p) > 1e-6:
            want = [x for x, y in zip(t[w + 1:], p) if y < alpha]
            c.check(list(d.get_anomaly_timepoints(alpha)) == want, "anomalous moments", got=d.get_anomaly_timepoints(alpha), want=want)
            c.event("anomalous moments", len(want))
    i = c.int(0, len(p) - 1)
    top = c.choice([None, 1, 2, k, k + 3])
    g = d.get_anomalous_metrics(t[w + 1 + i], top)
    rank = sorted(zip(z[i], names), reverse=True)[:top]
    c.check(list(g.columns) == ["metric", "anomaly_score"] and len(g) == len(rank), "ranked metrics", got=g, want=rank)
    c.close(g["anomaly_score"], [x for x, _ in rank], "ranked scores", rtol=1e-5, atol=1e-6)
    if all(abs(a - b) > 1e-4 * (1 + a) for (a, _), (b, _) in zip(rank, rank[1:])):
        c.check(list(g["metric"]) == [x for _, x in rank], "ranking", got=list(g["metric"]), want=rank)
        c.event("rankings")
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.state(freq, k, w, n, str(par), bool(order[0] != 0))


def model(c):
    freq, k, w, n, t, names, v = make(c)
    par = {"maxlags": c.choice([1, 2]), "ic": None, "trend": "c"}
    h = c.choice([0, 0, c.int(2, n - 2), w + 1, w])
    whole = series(t, v, names, "time")
    data, hist = whole[h:], (whole[:h] if h else None)
    fd, fh = gen.Frozen(data), gen.Frozen(hist) if h else None
    c.note(freq=freq, k=k, window=w, n=n, history=h, par=par)
    try:
        z, dist, p = reference(c, v, t, w, names, par)
    except ZeroDivisionError:
        raise Skip
    m = MultivariateAnomalyDetectorModel(VARParams(**par), training_days=w * UNIT[freq])
    if c.chance(0.4):
        m = MultivariateAnomalyDetectorModel(serialized_model=m.serialize())
        c.event("models restored")
    if c.chance(0.3):
        o = n - (c.int(0, 1) if n > w + 2 else 0)
        m.fit_predict(series(t[:o] + pd.Timedelta(9000, "D"), values(c, o, k), names, "time"))
        c.event("runs before")
    how = c.choice(["fit_predict", "fit then predict", "predict"])
    if how == "fit_predict":
        r = m.fit_predict(data, hist)
    elif how == "predict" and m.model is None:
        r = m.predict(data, hist)
    else:
        m.fit(data, hist)
        r = m.predict(data)
    full = lambda x, d: np.concatenate([np.full((w + 1,) + d, math.nan), x])[h:]
    for ts, want, label in [(r.scores, full(z, (k,)), "scores"), (r.anomaly_magnitude_ts, full(dist, ()), "overall scores"),
                            (r.stat_sig_ts, full(p, ()), "p-values")]:
        c.check(list(pd.DatetimeIndex(ts.time)) == list(t[h:]), f"times of {label}", got=len(ts), want=n - h)
        c.close(np.asarray(ts.value, dtype=float), want, label, rtol=1e-5, atol=1e-6)
    c.check(list(r.scores.value.columns) == names, "names of the scores", got=list(r.scores.value.columns), want=names)
    c.event("model answers judged")
    if h:
        c.event("answers with history")
    c.check(fd.unchanged(data), "the data are left as they were")
    c.check(fh is None or fh.unchanged(hist), "the history is left as it was")
    c.state("model", freq, k, w, n, h, how)


def refused(c):
    freq, k, w, n, t, names, v = make(c)
    kind = c.choice(["gap", "double", "points first", "metrics first", "plot first"])
    if kind == "gap":
        keep = np.setdiff1d(np.arange(n), [c.int(1, n - 2)])
        c.raises((RuntimeError,), "a gap", MultivariateAnomalyDetector, series(t[keep], v[keep], names), VARParams(maxlags=1), w * UNIT[freq])
    elif kind == "double":
        keep = np.sort(np.append(np.arange(n), c.int(0, n - 1)))
        c.raises((RuntimeError,), "a duplicate", MultivariateAnomalyDetector, series(t[keep], v[keep], names), VARParams(maxlags=1), w * UNIT[freq])
    else:
        d = MultivariateAnomalyDetector(series(t, v, names), VARParams(maxlags=1), w * UNIT[freq])
        f = {"points first": lambda: d.get_anomaly_timepoints(0.05), "metrics first": lambda: d.get_anomalous_metrics(t[-1]),
             "plot first": d.plot}[kind]
        c.raises((ValueError,), kind, f)
    c.state(kind)


SCENARIOS = [("scores", 110, 2500, scores), ("model", 60, 2000, model), ("refused", 40, 300, refused)]
NEED = {"moments scored": 150, "anomalous moments": 50, "rankings": 40, "model answers judged": 45, "answers with history": 20,
        "outliers cleaned": 200, "refusals observed": 40, "Bayesian detections": 4}
