"""C09: statistical forecasters agree with the published models they wrap."""
import contextlib
import io
import math

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
from kats.models.arima import ARIMAModel, ARIMAParams
from kats.models.bayesian_var import BayesianVAR, BayesianVARParams
from kats.models.holtwinters import HoltWintersModel, HoltWintersParams
from kats.models.linear_model import LinearModelParams
from kats.models.quadratic_model import QuadraticModelParams
from kats.models.sarima import SARIMAModel, SARIMAParams
from kats.models.simple_heuristic_model import SimpleHeuristicModelParams
from kats.models.stlf import STLFModel, STLFParams
from kats.models.theta import ThetaModel, ThetaParams
from kats.models.var import VARModel, VARParams
from scipy import stats
from statsmodels.tsa.api import VAR
from statsmodels.tsa.arima.model import ARIMA
from statsmodels.tsa.holtwinters import ExponentialSmoothing, SimpleExpSmoothing
from statsmodels.tsa.seasonal import STL
from statsmodels.tsa.statespace.sarimax import SARIMAX

import fc
import gen
from core import Skip, same

PROPERTY = "C09"
RULE = ("random regular series with trend, seasonality and noise (20-150 points, several steps, rows in any order), random "
        "orders, seasonal periods and decompositions, horizons from 1 to several seasons, confidence levels, with and "
        "without history, repeated fits and predictions; distinct = (model, order, step, length, horizon, options)")
ASSUMPTIONS = ["the estimation routines of statsmodels are the reference and are deterministic",
               "the last timestamp is aligned with the step", "multiplicative models get positive values"]
NEED = {"history forecasts": 10, "seasonal forecasts": 10}


def shaped(c, n, m=7, positive=True):
    i = np.arange(n)
    amp = c.choice([0, 2, 6])
    v = 40 + c.choice([0, 0.1, -0.1]) * i + amp * np.sin(2 * np.pi * i / m + c.rng.rand()) + c.rng.normal(0, 1, n)
    if c.chance(0.2):
        v[c.int(0, n - 1)] += 10
    v = v if positive else v - 40
    return v * c.choice([1, 1, 0.01, 100])


def make(c, lo=20, hi=150, m=7, positive=True, freqs=None):
    n = c.int(lo, hi)
    return fc.series(c, n, freq=c.choice(freqs or ["D", "H", "MS", "15min", "W-SUN"]), kind=shaped(c, n, m, positive))


def given(c, freq):
    return {"freq": freq} if c.chance(0.5) else {}


def holtwinters(c):
    trend, seasonal = c.choice(["add", "mul", None, "additive"]), c.choice([None, "add", "mul"])
    damped = bool(trend) and c.chance(0.4)
    m = c.choice([4, 7]) if seasonal else None
    ts, t, v, freq = make(c, m=m or 7)
    steps, hist = c.choice([1, 2, 5, 9, 20]), c.chance(0.3)
    c.note(n=len(v), freq=freq, trend=trend, damped=damped, seasonal=seasonal, m=m, steps=steps, history=hist)
    c.state("hw", len(v), freq, trend, damped, seasonal, m, steps, hist)
    frozen = gen.Frozen(ts)
    k = HoltWintersModel(ts, HoltWintersParams(trend=trend, damped=damped, seasonal=seasonal, seasonal_periods=m))
    k.fit()
    if c.chance(0.2):
        k.predict(c.int(1, 9), **given(c, freq))
    df = k.predict(steps, include_history=hist, **given(c, freq))
    ref = ExponentialSmoothing(v, trend=trend, damped_trend=damped, seasonal=seasonal, seasonal_periods=m).fit()
    want = np.concatenate([ref.predict(0, len(v) - 1) if hist else [], ref.forecast(steps)])
    fc.columns(c, df, ["time", "fcst"])
    fc.dates(c, df, (list(t) if hist else []) + fc.future(t[-1], steps, freq))
    c.event("history forecasts", hist)
    c.event("seasonal forecasts", bool(m))
    c.close(df.fcst, want, "Holt-Winters forecast", rtol=1e-5, atol=1e-5 * np.abs(v).max())
    c.check(frozen.unchanged(ts), "the data are unchanged")
    if c.chance(0.15):
        for bad in ({"trend": "nope"}, {"seasonal": "nope"}):
            c.raises((ValueError,), "invalid parameters are refused", HoltWintersParams, **bad)
    if c.chance(0.15):
        # with a significance level: an empirical interval around the same forecast
        n = len(v)
        al = c.choice([0.05, 0.2, 0.4])
        d2 = HoltWintersModel(ts, HoltWintersParams(trend="add"))
        d2.fit()
        e = d2.predict(steps, alpha=al, freq=freq, sliding_steps=3)
        fc.columns(c, e)
        r2 = ExponentialSmoothing(v, trend="add").fit()
        c.close(e.fcst, r2.forecast(steps), "Holt-Winters forecast with an interval", rtol=1e-5,
                atol=1e-5 * np.abs(v).max())
        c.close(e.fcst_upper - e.fcst, e.fcst - e.fcst_lower, "the empirical interval is centred", rtol=1e-6,
                atol=1e-6 * np.abs(v).max())
        got = [pd.Timestamp(x) for x in e.time]
        if got != fc.future(t[-1], steps, freq):
            daily = list(pd.date_range(t[-1], periods=steps + 1, freq="D")[1:])
            c.check(got == daily, "forecast times are the next steps of the grid", got=got[:4])
            c.known("KF-hw-interval-daily", "times of Holt-Winters forecasts with an interval are daily", freq=freq)


def acf(v, k):
    d = np.asarray(v, dtype=float) - np.mean(v)
    s = float(np.dot(d, d))
    return [1.0] + [float(np.dot(d[j:], d[:-j])) / s for j in range(1, k + 1)]


def seasonal_factors(v, period):
    return np.exp(STL(np.log(v), period=period, seasonal=7).fit().seasonal)


def theta_reference(v, m, steps, alpha, period):
    """(fitted, lower, upper), (forecast, lower, upper) and whether it is seasonal."""
    n = len(v)
    sea = False
    if m > 1 and len(set(v)) > 1 and n > 2 * m:
        r = acf(v, m)
        stat = math.sqrt((1 + 2 * sum(x * x for x in r[1:m])) / n)
        if abs(abs(r[m] / stat) - 1.644) < 1e-6:
            raise Skip()
        sea = abs(r[m] / stat) > 1.644
    f = np.ones(n)
    if sea:
        f = seasonal_factors(v, period)
        if np.any(np.abs(f) < 1e-10):
            f, sea = np.ones(n), False
    d = v / f
    ses = SimpleExpSmoothing(d).fit()
    a = max(1e-10, ses.params["smoothing_level"])
    x = np.arange(n) - (n - 1) / 2
    slope = float(np.dot(x, d) / np.dot(x, x))
    fit = ses.fittedvalues * f
    h = np.arange(steps)
    fut = ses.forecast(steps) + slope / 2 * (h + (1 - (1 - a) ** n) / a)
    if sea:
        fut = fut * np.array([f[n - m + (k % m)] for k in range(steps)])
    z, s = -stats.norm.ppf(alpha / 2), math.sqrt(ses.sse / (n - 2))
    w = z * s * np.sqrt(h * a * a + 1)
    return (fit, fit - z * s, fit + z * s), (fut, fut - w, fut + w), sea


def theta(c):
    m = c.choice([1, 2, 4, 7, 7, 12])
    ts, t, v, freq = make(c, m=m if m > 1 else 7, freqs=["D", "D", "MS", "W-SUN", "H"])
    n = len(v)
    if m == 7 and freq == "D" and c.chance(0.3):  # seasonal factors too small to use
        v = np.where(np.arange(n) % m == 0, 1e-18, 1.0) * (50 + c.rng.normal(0, 0.1, n))
        ts = TimeSeriesData(time=pd.Series(t), value=pd.Series(v))
    steps, hist, alpha = c.choice([1, 3, m, 2 * m + 1, 20]), c.chance(0.3), c.choice([0.05, 0.05, 0.2, 0.01])
    c.note(n=n, freq=freq, m=m, steps=steps, history=hist, alpha=alpha, first=list(v[:4]))
    c.state("theta", n, freq, m, steps, hist, alpha)
    frozen = gen.Frozen(ts)
    k = ThetaModel(ts, ThetaParams(m=m))
    if c.chance(0.1):
        c.raises((ValueError,), "predicting before fitting is refused", k.predict, steps)
    k.fit()
    if c.chance(0.2):
        k.predict(c.int(1, 9))
    df = k.predict(steps, include_history=hist, alpha=alpha, **given(c, freq))
    fc.columns(c, df)
    fc.dates(c, df, (list(t) if hist else []) + fc.future(t[-1], steps, freq))
    past, fut, sea = theta_reference(v, m, steps, alpha, m)
    c.event("history forecasts", hist)
    c.event("seasonal forecasts", sea)
    size = np.abs(v).max()

    def agrees(p, f):
        return all(same(np.asarray(df[col], dtype=float), np.concatenate([a if hist else [], b]), 1e-5, 1e-5 * size)
                   for col, a, b in zip(("fcst", "fcst_lower", "fcst_upper"), p, f))

    inferred = {"D": 7, "MS": 12, "W-SUN": 52, "H": 2}[freq]
    if sea and m != inferred and not agrees(past, fut):
        p2, f2, _ = theta_reference(v, m, steps, alpha, inferred)
        c.check(agrees(p2, f2), "theta forecast with the inferred period", got=list(df.fcst[:4]), want=list(f2[0][:4]))
        c.known("KF-theta-period", "seasonality is removed with the inferred period instead of m", m=m, freq=freq)
    else:
        for col, a, b in zip(("fcst", "fcst_lower", "fcst_upper"), past, fut):
            c.close(df[col], np.concatenate([a if hist else [], b]), f"theta {col}", rtol=1e-5, atol=1e-5 * size)
    fc.ordered(c, df)
    c.check(frozen.unchanged(ts), "the data are unchanged")


def arima(c):
    order = c.choice([(1, 0, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 1, 1), (2, 0, 0), (0, 1, 0), (0, 0, 0), (0, 2, 1)])
    ts, t, v, freq = make(c, 20, 90, positive=False, freqs=["D", "H", "MS"])
    steps, hist, alpha = c.choice([1, 2, 5, 20]), c.chance(0.35), c.choice([0.05, 0.2, 0.01, 0.5])
    c.note(n=len(v), freq=freq, order=order, steps=steps, history=hist, alpha=alpha)
    c.state("arima", len(v), freq, order, steps, hist, alpha)
    frozen = gen.Frozen(ts)
    k = ARIMAModel(ts, ARIMAParams(*order))
    if c.chance(0.1):
        c.raises((ValueError,), "predicting before fitting is refused", k.predict, steps)
    k.fit()
    if c.chance(0.2):
        k.predict(c.int(1, 9), alpha=0.3)
    df = k.predict(steps, include_history=hist, alpha=alpha, **given(c, freq))
    ref = ARIMA(v, order=order).fit()
    f = ref.get_forecast(steps)
    ci = f.conf_int(alpha=alpha)
    size = np.abs(v).max()
    d = order[1]
    c.event("history forecasts", hist)
    c.check(set(fc.COLS) <= set(df.columns), "columns of the forecast", got=list(df.columns))
    fc.dates(c, df, (list(t[d:]) if hist else []) + fc.future(t[-1], steps, freq))
    tail = df.iloc[len(df) - steps:]
    for col, want in (("fcst", f.predicted_mean), ("fcst_lower", ci[:, 0]), ("fcst_upper", ci[:, 1])):
        c.close(tail[col], want, f"ARIMA {col}", rtol=1e-4, atol=1e-4 * size)
    if hist:
        c.close(df.fcst[: len(df) - steps], ref.predict(start=d, end=len(v) - 1), "ARIMA fitted values", rtol=1e-4,
                atol=1e-4 * size)
    fc.ordered(c, tail)
    c.check(frozen.unchanged(ts), "the data are unchanged")
    if c.chance(0.1):
        c.raises((ValueError,), "an unknown trend is refused", ARIMAModel(ts, ARIMAParams(*order)).fit, trend="zzz")


def arima_trend(c):
    """The trend of an ARIMA fit."""
    n = 40
    v = 3 + 0.5 * np.arange(n) + c.rng.normal(0, 0.3, n)
    t = pd.date_range("2021-01-01", periods=n, freq="D")
    k = ARIMAModel(TimeSeriesData(time=pd.Series(t), value=pd.Series(v)), ARIMAParams(1, 0, 0))
    k.fit(trend="ct")
    got = k.predict(10).fcst
    want = ARIMA(v, order=(1, 0, 0), trend="ct").fit().forecast(10)
    c.note(n=n)
    if same(np.asarray(got), want, 1e-3, 1e-2):
        c.check(True, "trend")
        return
    c.close(got, ARIMA(v, order=(1, 0, 0)).fit().forecast(10), "ARIMA forecast with the default trend", rtol=1e-4, atol=1e-3)
    c.known("KF-arima-trend", "the trend given to ARIMAModel.fit is ignored")


def sarima(c):
    order = c.choice([(1, 0, 0), (0, 1, 1), (1, 1, 0), (1, 0, 1)])
    seas = c.choice([(0, 0, 0, 0), (1, 0, 0, 4), (0, 1, 1, 4), (1, 0, 0, 7)])
    trend = c.choice([None, None, "c", "ct"])
    ts, t, v, freq = make(c, 30, 80, m=seas[3] or 7, positive=False, freqs=["D", "H"])
    steps, hist, alpha = c.choice([1, 2, 5, 20]), c.chance(0.35), c.choice([0.05, 0.2, 0.01, 0.5])
    if (order[1] or seas[1]) and trend:
        trend = None
    kw = dict(enforce_stationarity=c.chance(0.5), enforce_invertibility=c.chance(0.5))
    exog = c.rng.normal(0, 1, (len(v) + steps, 1)) if c.chance(0.2) else None
    c.note(n=len(v), freq=freq, order=order, seasonal=seas, trend=trend, steps=steps, history=hist, alpha=alpha,
           exog=exog is not None)
    c.state("sarima", len(v), freq, order, seas, trend, steps, hist, alpha)
    frozen = gen.Frozen(ts)
    n = len(v)
    x, xf = (None, None) if exog is None else (exog[:n], exog[n:])
    k = SARIMAModel(ts, SARIMAParams(*order, exog=x, seasonal_order=seas, trend=trend, **kw))
    if c.chance(0.1):
        c.raises((ValueError,), "predicting before fitting is refused", k.predict, steps)
    k.fit(maxiter=15)
    if exog is not None and c.chance(0.5):
        c.raises((ValueError,), "forecasting without the regressors is refused", k.predict, steps)
    df = k.predict(steps, include_history=hist, alpha=alpha, freq=freq, exog=xf)
    ref = SARIMAX(v, order=order, seasonal_order=seas, trend=trend, exog=x, **kw).fit(maxiter=15, disp=False)
    f = ref.get_forecast(steps, exog=xf)
    ci = f.conf_int(alpha=alpha)
    size = np.abs(v).max()
    fc.columns(c, df)
    fc.dates(c, df, (list(t) if hist else []) + fc.future(t[-1], steps, freq))
    c.event("history forecasts", hist)
    c.event("seasonal forecasts", bool(seas[3]))
    tail = df.iloc[len(df) - steps:]
    for col, want in (("fcst", f.predicted_mean), ("fcst_lower", ci[:, 0]), ("fcst_upper", ci[:, 1])):
        c.close(tail[col], want, f"SARIMA {col}", rtol=1e-4, atol=1e-4 * size)
    if hist:
        h = ref.get_prediction(0)
        hc = h.conf_int(alpha=alpha)
        skip = int(df.fcst.isna().sum())
        c.check(skip <= max(order[0] + order[1] + order[2] + (sum(seas[:3]) + 1) * seas[3] + 2, 2) * 2,
                "only the first fitted values may be missing", missing=skip)
        for col, want in (("fcst", h.predicted_mean), ("fcst_lower", hc[:, 0]), ("fcst_upper", hc[:, 1])):
            got = np.asarray(df[col][:n], dtype=float)[skip:]
            c.close(got, want[skip:], f"SARIMA fitted {col}", rtol=1e-4, atol=1e-4 * size)
    fc.ordered(c, tail)
    c.check(frozen.unchanged(ts), "the data are unchanged")


def ols(d, degree, idx, alpha):
    n = len(d)
    X, F = np.vander(np.arange(n) / n, degree + 1), np.vander(np.asarray(idx) / n, degree + 1)
    beta = np.linalg.lstsq(X, d, rcond=None)[0]
    s2 = np.sum((d - X @ beta) ** 2) / (n - degree - 1)
    lev = np.sum(F * (F @ np.linalg.inv(X.T @ X)), axis=1)
    w = stats.t.ppf(1 - alpha / 2, n - degree - 1) * np.sqrt(s2 * (1 + lev))
    f = F @ beta
    return f, f - w, f + w


def stlf(c):
    method = c.choice(["linear", "quadratic", "simple", "theta"])
    dec = c.choice(["additive", "multiplicative"])
    m = c.choice([2, 4, 7, 12])
    ts, t, v, freq = make(c, max(20, 3 * m), 110, m=m)
    n = len(v)
    steps, hist = c.choice([1, 3, m, 2 * m + 1]), c.chance(0.4)
    alpha = c.choice([0.05, 0.2])
    mp = {"linear": LinearModelParams(alpha=alpha), "quadratic": QuadraticModelParams(alpha=alpha),
          "simple": SimpleHeuristicModelParams(method="mean"), "theta": ThetaParams(m=1)}[method]
    plain = False
    opt = dict(seasonal=c.choice([7, 7, 13]), robust=c.chance(0.2), seasonal_deg=c.choice([1, 1, 0]),
               trend_deg=c.choice([1, 1, 0]))
    odd = m + 1 + m % 2  # the least odd number above the period
    for name, pool in (("trend", [odd + 2, odd + 8]), ("low_pass", [odd, odd + 4]), ("low_pass_deg", [0]),
                       ("seasonal_jump", [2, 3]), ("trend_jump", [2, 5]), ("low_pass_jump", [3, 4])):
        if c.chance(0.3):
            opt[name] = c.choice(pool)
    c.note(n=n, freq=freq, method=method, decomposition=dec, m=m, steps=steps, history=hist, **opt)
    c.state("stlf", n, freq, method, dec, m, steps, hist, str(opt))
    if method == "theta":
        alpha = 0.05  # the level of the inner model's default
    frozen = gen.Frozen(ts)
    params = STLFParams(method=method, m=m, method_params=mp, decomposition=dec, **opt)
    if c.chance(0.25):
        # the inner model's default parameters
        params = STLFParams(method=method, m=m, decomposition=dec, **opt)
        alpha, plain = {"linear": 0.05, "quadratic": 0.05}.get(method, alpha), True
    k = STLFModel(ts, params)
    if c.chance(0.1):
        c.raises((ValueError,), "predicting before fitting is refused", k.predict, steps)
    k.fit()
    if c.chance(0.2):
        k.predict(c.int(1, 9), include_history=c.chance(0.5))
    df = k.predict(steps, include_history=hist, **given(c, freq))
    fc.columns(c, df)
    fc.dates(c, df, (list(t) if hist else []) + fc.future(t[-1], steps, freq))
    mul = dec == "multiplicative"
    r = STL(np.log(v) if mul else v, period=m, **opt).fit()
    sea, tr = (np.exp(r.seasonal), np.exp(r.trend)) if mul else (r.seasonal, r.trend)
    d = v / sea if mul else v - sea
    idx = np.arange(0 if hist else n, n + steps)
    if method in ("linear", "quadratic"):
        parts = ols(d, 1 if method == "linear" else 2, idx, alpha)
    elif method == "simple":
        b = n // steps
        if not b:
            raise Skip()
        mean = tr[n - b * steps:].reshape(b, steps).mean(axis=0)
        if plain:
            mean = tr[n - steps:]  # the default repeats the last values
        parts = (np.concatenate([tr, mean]) if hist else mean,) * 3
    else:
        past, fut, _ = theta_reference(d, 1, steps, alpha, None)
        parts = [np.concatenate([p, q]) if hist else q for p, q in zip(past, fut)]
    phase = np.concatenate([sea if hist else [], [sea[n - m + (j % m)] for j in range(steps)]])
    c.event("history forecasts", hist)
    c.event("seasonal forecasts")
    size = np.abs(v).max()
    for col, p in zip(("fcst", "fcst_lower", "fcst_upper"), parts):
        c.close(df[col], p * phase if mul else p + phase, f"STLF {col}", rtol=1e-5, atol=1e-5 * size)
    c.check(frozen.unchanged(ts), "the data are unchanged")
    if c.chance(0.1):
        c.raises((ValueError,), "an unknown method is refused", STLFParams, method="nope", m=m)
        c.raises((ValueError,), "an unknown decomposition is refused", STLFParams, method="linear", m=m,
                 decomposition="nope")
        c.raises((ValueError,), "a season longer than the series is refused", STLFModel, ts,
                 STLFParams(method="linear", m=n + 1))


def table(c, lo, hi):
    n, kk = c.int(lo, hi), c.choice([2, 2, 3])
    e = c.rng.normal(0, 1, (n, kk))
    y = np.zeros((n, kk))
    A = c.rng.uniform(-0.4, 0.4, (kk, kk))
    for i in range(1, n):
        y[i] = A @ y[i - 1] + e[i]
    y = y * np.array([1, 5, 0.2])[:kk] + np.array([10, 0, 3])[:kk]
    freq = c.choice(["D", "H", "MS"])
    t = pd.date_range(gen.start(c).normalize(), periods=n, freq=freq)
    cols = gen.names(c, kk)
    if "time" in cols:
        raise Skip()
    df = pd.DataFrame(y, columns=cols)
    df.insert(c.int(0, kk), "time", t)
    if c.chance(0.3):
        df = df.sample(frac=1, random_state=c.rng)
    return TimeSeriesData(df), t, y, cols, freq


def var(c):
    ts, t, y, cols, freq = table(c, 40, 120)
    maxlags, trend = c.choice([None, 1, 2, 4]), c.choice(["c", "c", "ct"])
    ic = c.choice([None, None, "aic"])
    steps, hist, alpha = c.choice([1, 2, 7, 30]), c.chance(0.3), c.choice([0.05, 0.05, 0.2, 0.01])
    c.note(n=len(y), columns=len(cols), freq=freq, maxlags=maxlags, trend=trend, ic=ic, steps=steps, history=hist)
    c.state("var", len(y), len(cols), freq, maxlags, trend, ic, steps, hist, alpha)
    frozen = gen.Frozen(ts)
    p = VARParams(maxlags=maxlags, trend=trend, ic=ic)
    k = VARModel(ts, p)
    if c.chance(0.1):
        c.raises((ValueError,), "predicting before fitting is refused", k.predict, steps)
    k.fit()
    ml = maxlags if maxlags is not None else int(12 * (len(y) / 100) ** 0.25)
    ref = VAR(y).fit(maxlags=ml, method="ols", ic=ic, trend=trend)
    if not ref.k_ar:  # no lag selected: statsmodels cannot forecast
        raise Skip()
    with contextlib.redirect_stdout(io.StringIO()):
        got = k.predict(steps, include_history=hist, **dict(given(c, freq), **({} if alpha == 0.05 else {"alpha": alpha})))
    mid, low, up = ref.forecast_interval(y, steps, alpha=alpha)
    fit = np.asarray(ref.fittedvalues) if hist else np.zeros((0, len(cols)))
    c.check(list(got) == cols, "one forecast per column, in order", got=list(got), want=cols)
    c.event("history forecasts", hist)
    for j, name in enumerate(cols):
        g = got[name]
        v = g.value
        times = [pd.Timestamp(x) for x in g.time]
        want = (list(t[len(t) - len(fit):]) if hist else []) + fc.future(t[-1], steps, freq)
        c.check(times == want, "forecast times are the next steps of the grid", got=times[:3], want=want[:3])
        size = np.abs(y[:, j]).max()
        nan = np.full(len(fit), np.nan)
        for col, a, b in (("fcst", fit[:, j], mid[:, j]), ("fcst_lower", nan, low[:, j]), ("fcst_upper", nan, up[:, j])):
            c.close(v[col], np.concatenate([a, b]), f"VAR {col}", rtol=1e-6, atol=1e-7 * size)
    c.check(frozen.unchanged(ts), "the data are unchanged")
    c.check(p.maxlags == maxlags and p.ic == ic, "the parameters are unchanged", maxlags=p.maxlags)
    if c.chance(0.1):
        c.raises((ValueError,), "a univariate series is refused", VARModel,
                 TimeSeriesData(time=pd.Series(t), value=pd.Series(y[:, 0])), p)


def bayes_reference(y, p, phi0, phi1, phi2, phi3, steps):
    """Minnesota-prior posterior mean, equation by equation in one linear system."""
    T, m = y.shape
    N = m * p + 2

    def z(hist, i):
        return np.array([hist[i - L][j] for j in range(m) for L in range(1, p + 1)] + [i, 1.0])

    Z = np.array([z(y, i) for i in range(p, T)])
    Y = y[p:]
    B = np.linalg.solve(Z.T @ Z, Z.T @ Y)
    R = Y - Z @ B
    S = R.T @ R / (T - m * p - 1)
    Si = np.linalg.inv(S)
    var_ = y.var(axis=0)
    prior = np.zeros((m, N))
    mean = np.zeros((m, N))
    for i in range(m):
        for j in range(m):
            for L in range(1, p + 1):
                prior[i, j * p + L - 1] = phi0 / L ** phi3 if i == j else phi0 * phi1 / L ** phi3 * var_[j] / var_[i]
        prior[i, m * p:] = phi0 * phi2
        mean[i, i * p] = 1
    A = np.kron(Si, Z.T @ Z) + np.diag(1 / prior.flatten())
    b = (Si @ (Z.T @ Y).T).flatten() + mean.flatten() / prior.flatten()
    mu = np.linalg.solve(A, b).reshape(m, N)
    fit = Z @ mu.T
    h = [list(r) for r in y]
    for i in range(T, T + steps):
        h.append(list(mu @ z(h, i)))
    return fit, np.array(h[T:]).reshape(-1, m), np.linalg.cond(A), np.linalg.cond(Z.T @ Z)


def bayes(c):
    ts, t, y, cols, freq = table(c, 20, 45)
    p = c.int(1, 3)
    par = dict(p=p, phi_0=c.choice([0.02, 0.2, 1]), phi_1=c.choice([0.25, 0.5, 1]), phi_2=c.choice([20, 5]),
               phi_3=c.choice([3, 1]))
    steps, hist = c.choice([0, 1, 2, 7]), c.chance(0.5)
    if not steps:
        hist = True
    c.note(n=len(y), columns=len(cols), freq=freq, steps=steps, history=hist, **par)
    c.state("bayes", len(y), len(cols), freq, steps, hist, *par.values())
    frozen = gen.Frozen(ts)
    bp = BayesianVARParams(**par)
    k = BayesianVAR(ts, bp)
    if c.chance(0.2):
        c.raises((ValueError,), "predicting before fitting is refused", k.predict, steps)
    k.fit()
    if c.chance(0.5):
        k.predict(c.int(1, 3), include_history=c.chance(0.7))
    c.raises((ValueError,), "asking for nothing is refused", k.predict, 0)
    got = k.predict(steps, include_history=hist)
    fit, fut, c1, c2 = bayes_reference(y, p, par["phi_0"], par["phi_1"], par["phi_2"], par["phi_3"], steps)
    if max(c1, c2) > 1e9:
        raise Skip()
    c.check(list(got) == cols, "one forecast per column, in order", got=list(got), want=cols)
    c.event("history forecasts", hist)
    for j, name in enumerate(cols):
        g = got[name]
        want = np.concatenate([fit[:, j] if hist else [], fut[:, j]])
        times = [pd.Timestamp(x) for x in g.time]
        wt = (list(t[p:]) if hist else []) + fc.future(t[-1], steps, freq)
        c.check(times == wt, "forecast times are the next steps of the grid", got=times[:3], want=wt[:3])
        c.close(g.value["fcst"], want, "Bayesian VAR fcst", rtol=1e-5, atol=1e-5 * np.abs(y).max())
    c.check(frozen.unchanged(ts), "the data are unchanged")
    if c.chance(0.2):
        for bad in ({"p": 0}, {"phi_0": 0}, {"phi_1": 0}, {"phi_1": 1.5}, {"phi_2": -1}, {"phi_3": 0}):
            c.raises((ValueError,), "invalid parameters are refused", BayesianVARParams(**bad).validate_params)
        c.raises((ValueError,), "a univariate series is refused", BayesianVAR,
                 TimeSeriesData(time=pd.Series(t), value=pd.Series(y[:, 0])), bp)


SCENARIOS = [
    ("holtwinters", 30, 300, holtwinters),
    ("theta", 60, 1200, theta),
    ("arima", 30, 300, arima),
    ("arima trend", 1, 3, arima_trend),
    ("sarima", 16, 160, sarima),
    ("stlf", 60, 1200, stlf),
    ("var", 30, 500, var),
    ("bayesian var", 20, 300, bayes),
]
