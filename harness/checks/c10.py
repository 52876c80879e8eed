"""C10: combined forecasts and empirical intervals."""
import math
import sys
import time

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
from kats.detectors.seasonality import ACFDetector
from kats.models.ensemble.ensemble import BaseModelParams, EnsembleParams
from kats.models.ensemble.kats_ensemble import KatsEnsemble
from kats.models.ensemble.median_ensemble import MedianEnsembleModel
from kats.models.ensemble.weighted_avg_ensemble import WeightedAvgEnsemble
from kats.models.holtwinters import HoltWintersModel, HoltWintersParams
from kats.models.linear_model import LinearModel, LinearModelParams
from kats.models.quadratic_model import QuadraticModel, QuadraticModelParams
from kats.models.theta import ThetaModel, ThetaParams
from kats.utils.emp_confidence_int import EmpConfidenceInt
from kats.utils.ensemble_predict_interval import ensemble_predict_interval
from scipy import stats
from statsmodels.tsa.seasonal import STL

import fc
import gen
from checks.c07 import folds, score
from core import Skip

PROPERTY = "C10"
RULE = ("random series with or without trend and season, random subsets of the base models in random order with random "
        "parameters, delays injected into the fits so that the worker processes finish in different orders, every error "
        "metric, aggregation and decomposition, both ways of running the ensemble; for the intervals, models whose errors "
        "are known; distinct = (ensemble, members, order, length, horizon, options, finishing delays)")
ASSUMPTIONS = ["members have different names", "the step is given where the ensemble asks for one",
               "weighted members have intervals of their own"]
NEED = {"median forecasts": 3, "weighted forecasts": 3, "seasonal ensembles": 2, "empirical intervals": 10,
        "chains compared": 20, "forecasts given their season": 60}

CLASSES = {"linear": LinearModel, "quadratic": QuadraticModel, "holtwinters": HoltWintersModel, "theta": ThetaModel}


def member(c, name, m=7):
    if name == "linear":
        return LinearModelParams(alpha=c.choice([0.05, 0.2]))
    if name == "quadratic":
        return QuadraticModelParams(alpha=c.choice([0.05, 0.2]))
    if name == "theta":
        return ThetaParams(m=m)
    return HoltWintersParams(trend="add")


def delayed(c, names):
    """Sleep a random time in every fit, in this process and the workers it forks."""
    old = {n: CLASSES[n].fit for n in names}
    wait = {n: c.choice([0, 0, 0.05, 0.15]) for n in names}

    def wrap(n, f):
        def fit(self, *a, **k):
            time.sleep(wait[n])
            return f(self, *a, **k)
        return fit

    for n in names:
        CLASSES[n].fit = wrap(n, old[n])

    def undo():
        for n in names:
            CLASSES[n].fit = old[n]
    return undo, tuple(wait.values())


def series(c, lo=30, hi=80, season=0.0, m=7, freqs=("D", "H", "MS")):
    n = c.int(lo, hi)
    i = np.arange(n)
    v = 30 + c.choice([0, 0.3, -0.1]) * i + season * np.sin(2 * np.pi * i / m) + c.rng.normal(0, 1, n)
    ts, t, v, freq = fc.series(c, n, freq=c.choice(freqs), kind=v)
    return ts, t, v, freq


def alone(name, params, t, v, steps):
    k = CLASSES[name](TimeSeriesData(time=pd.Series(t), value=pd.Series(v)), params)
    k.fit()
    return k.predict(steps)


def error_of(name, params, t, v, metric):
    n = len(v)
    a, b = int(n * 80 // 100), int(n * 20 // 100)
    p = alone(name, params, t[:a], v[:a], b)
    return score(metric, list(v[a:a + b]), list(p.fcst)[:b])


def weights(errors):
    w = {k: 1 / (e + sys.float_info.epsilon) for k, e in errors.items()}
    s = sum(w.values())
    return {k: x / s for k, x in w.items()}


def simple_ensembles(c):
    ts, t, v, freq = series(c)
    names = [["linear", "quadratic", "holtwinters"][i] for i in c.rng.permutation(3)[: c.choice([1, 2, 2, 3])]]
    ps = {n: member(c, n) for n in names}
    steps = c.choice([1, 2, 7, 30])
    weighted = c.chance(0.5)
    metric = c.choice(["mape", "mae", "rmse", "smape", "mse"])
    undo, waits = delayed(c, names)
    c.note(n=len(v), freq=freq, names=names, steps=steps, weighted=weighted, metric=metric, waits=waits)
    c.state("simple", len(v), freq, *names, steps, weighted, metric, waits)
    frozen = gen.Frozen(ts)
    given = EnsembleParams([BaseModelParams(x, ps[x]) for x in names])
    try:
        m = (WeightedAvgEnsemble if weighted else MedianEnsembleModel)(ts, given)
        if c.chance(0.3):
            c.raises((ValueError,), "predicting before fitting is refused", m.predict, steps, freq=freq)
        m.fit()
        kw = {"err_method": metric} if weighted and metric != "mape" else {}
        df = m.predict(steps, freq=freq, **kw)
    finally:
        undo()
    fc.dates(c, df, fc.future(t[-1], steps, freq))
    each = {x: np.asarray(alone(x, ps[x], t, v, steps).fcst, dtype=float) for x in names}
    size = max(np.abs(e).max() for e in each.values())
    if weighted:
        w = weights({x: error_of(x, ps[x], t, v, metric) for x in names})
        c.check(set(m.weights) == set(names), "one weight per member", got=list(m.weights))
        for x in names:
            c.close(m.weights[x], w[x], "weight is inverse to the backtest error", rtol=1e-4, member=x)
        c.close(sum(m.weights.values()), 1.0, "weights sum to one", rtol=1e-9)
        want = sum(w[x] * each[x] for x in names)
        c.event("weighted forecasts")
    else:
        want = np.median(np.array(list(each.values())), axis=0)
        c.event("median forecasts")
    c.close(df.fcst, want, "ensemble forecast", rtol=1e-4, atol=1e-5 * size)
    c.check(frozen.unchanged(ts), "the data are unchanged")


def failing(c):
    """An error in one member's fit reaches the caller, it is not dropped."""
    ts, t, v, freq = series(c)
    names = ["linear", "quadratic"]
    bad = c.choice(names)
    old = CLASSES[bad].fit

    def fit(self, *a, **k):
        raise ArithmeticError("injected failure")

    CLASSES[bad].fit = fit
    c.note(bad=bad)
    try:
        given = EnsembleParams([BaseModelParams(x, member(c, x)) for x in names])
        cls = c.choice([MedianEnsembleModel, WeightedAvgEnsemble])
        c.raises((ArithmeticError,), "a failing member is reported", cls(ts, given).fit)
    finally:
        CLASSES[bad].fit = old
    two = TimeSeriesData(pd.DataFrame({"time": t, "a": v, "b": v}))
    c.raises((ValueError,), "multivariate data are refused", cls, two, given)
    par = {"models": given, "aggregation": "median", "seasonality_length": None, "decomposition_method": "additive"}
    c.raises((ValueError,), "an unknown aggregation is refused", KatsEnsemble, ts, dict(par, aggregation="mean"))
    c.raises((ValueError,), "a season longer than half the series is refused", KatsEnsemble, ts,
             dict(par, seasonality_length=len(v) // 2 + 1))
    k = KatsEnsemble(ts, par)
    c.raises((ValueError,), "predicting before fitting is refused", k.predict, 3)
    c.raises((ValueError,), "aggregating before predicting is refused", k.aggregate)


def kats(c):
    seasonal = c.chance(0.6)
    m = c.choice([4, 7, 12]) if seasonal else 7
    ts, t, v, freq = series(c, 50, 110, season=8.0 if seasonal else 0.0, m=m, freqs=("D", "H", "MS"))
    agg = c.choice(["median", "weightedavg"])
    dec = c.choice(["additive", "multiplicative"])
    pool = ["linear", "quadratic", "theta"] + (["holtwinters"] if agg == "median" else [])
    names = [pool[i] for i in c.rng.permutation(len(pool))[: c.choice([1, 2, 3])]]
    # the theta members get no season of their own (see KF-theta-period of C09)
    ps = {n: member(c, n, m=1) for n in names}
    steps = c.choice([1, 3, m, 2 * m + 1])
    way = c.choice(["fit", "forecast"])
    metric = c.choice(["mape", "mae"]) if way == "fit" and agg == "weightedavg" else "mape"
    undo, waits = delayed(c, names)
    c.note(n=len(v), freq=freq, m=m, seasonal=seasonal, names=names, aggregation=agg, decomposition=dec, steps=steps,
           way=way, metric=metric)
    c.state("kats", len(v), freq, m, seasonal, *names, agg, dec, steps, way, waits)
    frozen = gen.Frozen(ts)
    par = {"models": EnsembleParams([BaseModelParams(x, ps[x]) for x in names]), "aggregation": agg,
           "seasonality_length": m if seasonal or c.chance(0.5) else None, "decomposition_method": dec}
    det = ACFDetector(ts)
    det.detector()
    try:
        k = KatsEnsemble(ts, par)
        if det.seasonality_detected and par["seasonality_length"] is None:
            c.raises((ValueError,), "seasonal data without a season length are refused",
                     k.fit if way == "fit" else (lambda: k.forecast(steps)))
            return
        if way == "fit":
            k.fit(err_method=metric)
            k.predict(steps)
        else:
            k.forecast(steps)
        df = k.aggregate()
    finally:
        undo()
    sea = det.seasonality_detected
    c.check(bool(k.seasonality) == bool(sea), "seasonality as detected", got=k.seasonality)
    fc.columns(c, df)
    fc.dates(c, df, fc.future(t[-1], steps, freq))
    # reference: members fitted here, one after the other
    d, phase = v, None
    if sea:
        c.event("seasonal ensembles")
        r = STL(np.log(v) if dec == "multiplicative" else v, period=m, seasonal=7).fit().seasonal
        r = np.exp(r) if dec == "multiplicative" else r
        d = v / r if dec == "multiplicative" else v - r
        phase = np.array([r[len(v) - m + (j % m)] for j in range(steps)])
    each = {}
    for x in names:
        p = alone(x, ps[x], t, d, steps)
        cols = {q: np.asarray(p[q], dtype=float) if q in p.columns else np.full(steps, np.nan)
                for q in ("fcst", "fcst_lower", "fcst_upper")}
        if sea:
            cols = {q: a * phase if dec == "multiplicative" else a + phase for q, a in cols.items()}
        each[x] = cols
    if sea and "theta" in names:
        p = alone("theta", ps["theta"], t, v, steps)
        each["theta_smodel"] = {q: np.asarray(p[q], dtype=float) for q in ("fcst", "fcst_lower", "fcst_upper")}
    size = np.abs(v).max()
    c.check(set(k.predicted) == set(each), "one forecast per member", got=list(k.predicted), want=list(each))
    for x in each:
        c.close(k.predicted[x].fcst, each[x]["fcst"], "member forecast", rtol=1e-4, atol=1e-4 * size, member=x)
    if agg == "median":
        c.check(k.weights is None or way == "fit", "no weights for a median")
        c.event("median forecasts")
    else:
        w = weights({x: error_of(x.split("_")[0], ps[x.split("_")[0]], t, v, metric) for x in each})
        for x in each:
            c.close(k.weights[x], w[x], "weight is inverse to the backtest error", rtol=1e-3, atol=1e-6, member=x)
        c.close(sum(k.weights.values()), 1.0, "weights sum to one", rtol=1e-9)
        c.event("weighted forecasts")
    for q in ("fcst", "fcst_lower", "fcst_upper"):
        a = np.array([each[x][q] for x in each])
        if agg == "median":
            want = np.array([np.median(col[~np.isnan(col)]) if np.any(~np.isnan(col)) else np.nan for col in a.T])
        else:
            want = sum(w[x] * each[x][q] for x in each)
        c.close(df[q], want, f"ensemble {q}", rtol=1e-3, atol=1e-4 * size)
    c.check(frozen.unchanged(ts), "the data are unchanged")


def seasons(c):
    """Taking the season out of the data and putting it back into forecasts."""
    m = c.choice([2, 4, 7, 12])
    ts, t, v, freq = series(c, 3 * m + 4, 90, season=8.0, m=m, freqs=("D", "H", "MS"))
    dec, steps, n = c.choice(["additive", "multiplicative"]), c.int(1, 3 * m), len(v)
    c.note(n=n, freq=freq, m=m, decomposition=dec, steps=steps)
    c.state("seasons", n, freq, m, dec, steps)
    mul, frozen = dec == "multiplicative", gen.Frozen(ts)
    sea, rest = KatsEnsemble.deseasonalize(ts, dec, m)
    r = STL(np.log(v) if mul else v, period=m, seasonal=7).fit().seasonal
    r = np.exp(r) if mul else r
    size = np.abs(v).max()
    c.close(sea.value, r, "season taken out", rtol=1e-6, atol=1e-6 * size)
    c.close(rest.value, v / r if mul else v - r, "data without the season", rtol=1e-6, atol=1e-6 * size)
    c.check(list(pd.DatetimeIndex(rest.time)) == list(t) and list(pd.DatetimeIndex(sea.time)) == list(t), "times of the data without the season")
    c.check(frozen.unchanged(ts), "the data are unchanged")
    phase = np.array([r[n - m + (j % m)] for j in range(steps)])
    given, want = {}, {}
    for name in ["linear", "theta", "quadratic", "other"][:c.int(1, 4)]:
        cols = ["fcst", "fcst_lower", "fcst_upper"] if c.chance(0.7) else ["fcst"]
        f = pd.DataFrame(np.sort(c.rng.normal(10, 2, (steps, 3)), axis=1)[:, [1, 0, 2][:len(cols)]], columns=cols)
        f.insert(0, "time", fc.future(t[-1], steps, freq))
        want[name] = f.copy()
        given[name] = f if len(cols) == 3 and c.chance(0.5) else f.set_index("time")
    out = KatsEnsemble.reseasonalize(sea, given, dec, m, steps)
    c.check(sorted(out) == sorted(want), "one forecast for each given", got=sorted(out))
    for name, f in want.items():
        c.check(list(pd.DatetimeIndex(out[name].index)) == list(f.time), "times of a forecast", member=name)
        for q in f.columns[1:]:
            w = f[q].to_numpy() * phase if mul else f[q].to_numpy() + phase
            c.close(out[name][q], w, "the season is not put back at its phase", rtol=1e-6, atol=1e-6 * size, column=q, member=name)
        c.event("forecasts given their season")


class Naive:
    """Repeats the last block of its data plus a known drift; its errors are known."""

    def __init__(self, data, params):
        self.data, self.params = data, params

    def fit(self):
        return self

    def predict(self, steps, freq=None, **kw):
        v = np.asarray(self.data.value, dtype=float)
        t = pd.date_range(self.data.time.iloc[-1], periods=steps + 1, freq=freq or "D")[1:]
        b = self.params["block"]
        f = np.array([v[len(v) - b + (k % b)] for k in range(steps)]) + self.params["shift"]
        return pd.DataFrame({"time": t, "fcst": f, "fcst_lower": f, "fcst_upper": f})


def empirical(c):
    n = c.int(30, 120)
    ts, t, v, freq = fc.series(c, n, freq=c.choice(["D", "H", "MS"]), kind=c.choice(["normal", "int", "pos", "steps"]))
    tr, te, k = c.choice([30, 50, 60, 75]), c.choice([10, 15, 20]), c.choice([2, 3, 5, 8])
    level, multi = c.choice([0.8, 0.8, 0.95, 0.6, 0.5]), c.chance(0.15)
    steps = c.choice([1, 2, 5, 20])
    b = int(n * te // 100)
    if b < 1:
        raise Skip()
    params = {"block": 1, "shift": float(c.rng.normal())}
    linear = c.chance(0.3)
    cls, par = (LinearModel, LinearModelParams()) if linear else (Naive, params)
    c.note(n=n, freq=freq, tr=tr, te=te, folds=k, level=level, steps=steps, multi=multi, model=cls.__name__)
    c.state("empirical", n, freq, tr, te, k, level, steps, multi, linear)
    frozen = gen.Frozen(ts)
    e = EmpConfidenceInt(["mape"], ts, par, tr, te, k, cls, multi=multi, confidence_level=level)
    df = e.get_eci(steps, freq)
    fc.columns(c, df)
    fc.dates(c, df, fc.future(t[-1], steps, freq))

    def forecast(x, h):
        if not linear:
            return np.full(h, x[-1] + params["shift"])
        i = np.arange(len(x))
        p = np.polyfit(i - i.mean(), x, 1)
        return np.polyval(p, np.arange(len(x), len(x) + h) - i.mean())

    errs = np.array([v[f[2]:f[3]] - forecast(v[f[0]:f[1]], f[3] - f[2]) for f in folds("rolling", n, tr, te, 0, k)])
    se = errs.std(axis=0, ddof=1)
    c.close(e.SE, se, "standard error per horizon", rtol=1e-6, atol=1e-8)
    h = np.arange(1, b + 1)
    if b == 1:  # one horizon: the minimum-norm line through it
        slope = icpt = se[0] / 2
    else:
        hm = h.mean()
        slope = float(np.sum((h - hm) * (se - se.mean())) / np.sum((h - hm) ** 2))
        icpt = float(se.mean() - slope * hm)
    margin = stats.norm.ppf(level) * (slope * np.arange(1, steps + 1) + icpt)
    want = forecast(v, steps)
    size = np.abs(v).max() + 1e-9
    c.close(df.fcst, want, "point forecast from all the data", rtol=1e-6, atol=1e-6 * size)
    c.close(df.fcst_upper - df.fcst, margin, "margin above the forecast", rtol=1e-5, atol=1e-6 * size)
    c.close(df.fcst - df.fcst_lower, margin, "margin below the forecast", rtol=1e-5, atol=1e-6 * size)
    c.event("empirical intervals")
    c.check(frozen.unchanged(ts), "the data are unchanged")
    if c.chance(0.2):
        for bad in ((0, 10, 3), (101, 10, 3), (-5, 10, 3), (50, 0, 3), (50, 120, 3), (50, 10, -1)):
            c.raises((ValueError,), "invalid percentages and steps are refused", EmpConfidenceInt, ["mape"], ts, par,
                     *bad, cls)


def chains(c):
    """Block-wise prediction intervals, with a model whose block errors are all the same."""
    block, blocks = c.int(10, 14), c.int(5, 7)
    n = block * (blocks + 1) + c.int(0, 5)
    drift = c.choice([0.0, 0.3, -1.0])
    pattern = c.rng.normal(0, 3, block)
    noise = c.choice([0.0, 0.0, 1.0])
    shift = float(c.rng.normal())
    full = np.arange(n + 5 * block)
    off = n % block
    y = drift * full + pattern[(full - off) % block]
    v = y[:n] + c.rng.normal(0, 1, n) * noise
    freq = c.choice(["D", "H", "15min"])
    ts, t, v, freq = fc.series(c, n, freq=freq, kind=v)
    steps, rolling = c.choice([1, 5, block, block + 3, 2 * block]), c.chance(0.5)
    mp, size, level = c.chance(0.25), c.choice([4, 6, 10]), c.choice([0.8, 0.5, 0.95])
    how = c.choice(["size", "number", "both"])
    kw = {} if how == "number" else {"block_size": block}
    kw.update({} if how == "size" else {"n_block": blocks})
    c.note(n=n, block=block, blocks=blocks, freq=freq, steps=steps, rolling=rolling, noise=noise, multi=mp, ensemble=size)
    c.state("chains", n, block, blocks, freq, steps, rolling, noise, mp, size, how)
    frozen = gen.Frozen(ts)
    e = ensemble_predict_interval(Naive, {"block": block, "shift": shift}, ts, ensemble_size=size, multiprocessing=mp, **kw)
    c.raises((ValueError,), "asking for a band before the projection is refused", e.get_fcst_band_with_level, 0.5)
    df = e.get_projection(steps, rolling_based=rolling, confidence_level=level)
    b, nb = e.block_size, e.n_block
    c.check(b * (nb + 1) <= n and (b, nb) == (block, blocks) if how != "number" else nb == blocks, "blocks as asked",
            got=(b, nb))
    x = v[n - b * (nb + 1):].reshape(nb + 1, b)
    f = x[:-1, [(k % block) + b - block for k in range(b)]] if b >= block else None
    if f is not None:
        c.close(e.error_matrix, x[1:] - f - shift, "error of every block", rtol=1e-9, atol=1e-9)
    g = np.asarray(e.ensemble_fcst, dtype=float)
    c.check(g.shape == (size, steps), "one chain per member", got=g.shape)
    if noise == 0 and b == block:
        c.close(g, np.tile(y[n:n + steps], (size, 1)), "chains continue the pattern", rtol=1e-6, atol=1e-5)
        c.close(df.fcst_upper - df.fcst_lower, np.zeros(steps), "no spread without errors", atol=1e-4)
    elif noise:
        rows = {tuple(np.round(r, 9)) for r in g}
        c.check(len(rows) == size, "chains are different draws", distinct=len(rows), of=size)
    for lv, d in ((level, df), (0.7, e.get_fcst_band_with_level(0.7))):
        q = stats.t.ppf((1 + lv) / 2, size - 1)
        mid, sd = g.mean(axis=0), np.sqrt(((g - g.mean(axis=0)) ** 2).mean(axis=0))
        for col, want in (("fcst", mid), ("fcst_lower", mid - q * sd), ("fcst_upper", mid + q * sd)):
            c.close(d[col], want, f"{col} of the chains", rtol=1e-7, atol=1e-7)
    c.event("chains compared", size)
    c.check(frozen.unchanged(ts), "the data are unchanged")
    if c.chance(0.2):
        P = {"block": block, "shift": shift}
        for bad in ({}, {"n_block": 4}, {"block_size": 9}, {"block_size": 9, "n_block": 5}, {"block_size": 10, "n_block": 4},
                    {"block_size": n, "n_block": 5}, {"n_block": n}, {"block_size": n}):
            c.raises((ValueError,), "unsuitable blocks are refused", ensemble_predict_interval, Naive, P, ts, **bad)
        c.raises((ValueError,), "a tiny ensemble is refused", ensemble_predict_interval, Naive, P, ts, n_block=blocks,
                 ensemble_size=3)


SCENARIOS = [
    ("median and weighted", 10, 100, simple_ensembles),
    ("failing member", 2, 20, failing),
    ("kats ensemble", 12, 120, kats),
    ("seasons", 60, 1500, seasons),
    ("empirical interval", 50, 1000, empirical),
    ("chains", 30, 500, chains),
]
