"""C08: regression and heuristic forecasters equal their closed forms."""
import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
from kats.models.harmonic_regression import HarmonicRegressionModel, HarmonicRegressionParams
from kats.models.linear_model import LinearModel, LinearModelParams
from kats.models.quadratic_model import QuadraticModel, QuadraticModelParams
from kats.models.simple_heuristic_model import SimpleHeuristicModel, SimpleHeuristicModelParams
from scipy import stats

import fc
import gen
from core import Skip

PROPERTY = "C08"
RULE = ("random regular series (4-120 points, eight steps, rows in any order, every scale of values), horizons from 1 to "
        "beyond the history, confidence levels, with and without history, inferred or given step, repeated fits and "
        "predictions; distinct = (model, step, length, horizon, options) signature")
ASSUMPTIONS = ["the last timestamp is aligned with the step", "times are without zone", "at least three rows (the step is inferred even when given)",
               "harmonic designs are well conditioned"]
NEED = {"one-step forecasts": 5, "history forecasts": 10}

KINDS = ["normal", "int", "const", "big", "small", "zeros", "steps", "pos", "mixed"]


def regression(degree, Model, Params):
    def run(c):
        n = c.choice([degree + 2, degree + 3, 6, 10, 25, 60, 120])
        ts, t, v, freq = fc.series(c, n, kind=c.choice(KINDS))
        if c.chance(0.4):
            i = np.arange(n)
            v = v + c.rng.normal() * 10 * i + (c.rng.normal() * i * i if degree == 2 else 0)
            ts = TimeSeriesData(time=pd.Series(t), value=pd.Series(v))
        alpha = c.choice([0.01, 0.05, 0.1, 0.25, 0.5])
        steps = c.choice([1, 1, 2, 3, 7, 30, n, 2 * n + 1])
        hist = c.chance(0.35)
        c.note(n=n, freq=freq, alpha=alpha, steps=steps, history=hist, first=list(v[:5]))
        c.state(Model.__name__, n, freq, alpha, steps, hist)
        frozen = gen.Frozen(ts)
        m = Model(ts, Params(alpha=alpha))
        if c.chance(0.1):
            c.raises((ValueError,), "predicting before fitting is refused", m.predict, steps, freq=freq)
        m.fit()
        if c.chance(0.2):
            m.fit()
        if c.chance(0.35):  # an earlier question, also with another step, leaves nothing behind
            m.predict(c.int(1, 5), include_history=c.chance(0.5), **c.choice([{}, {"freq": freq}, {"freq": "H"}]))
        kw = {"freq": freq} if c.chance(0.5) else {}
        df = m.predict(steps, include_history=hist, **kw)
        c.event("one-step forecasts", steps == 1)
        c.event("history forecasts", hist)
        fc.columns(c, df)
        want = fc.future(t[-1], steps, freq)
        fc.dates(c, df, (list(t) if hist else []) + want)
        # reference: ordinary least squares by QR in a centred and scaled basis
        x = np.arange(n, dtype=float)
        xf = np.arange(0 if hist else n, n + steps, dtype=float)
        mid, sc = x.mean(), max(x.std(), 1e-9)
        X = np.vander((x - mid) / sc, degree + 1)
        F = np.vander((xf - mid) / sc, degree + 1)
        q, r = np.linalg.qr(X)
        beta = np.linalg.solve(r, q.T @ v)
        fit = F @ beta
        dof = n - degree - 1
        s2 = float(np.sum((v - X @ beta) ** 2) / dof)
        lev = np.sum(np.linalg.solve(r.T, F.T) ** 2, axis=0)
        half = stats.t.ppf(1 - alpha / 2, dof) * np.sqrt(s2 * (1 + lev))
        size = np.abs(v).max() + np.abs(fit).max()
        c.close(df.fcst, fit, "forecast equals the least-squares curve", rtol=1e-5, atol=1e-6 * size + 1e-12)
        c.close(df.fcst_upper - df.fcst, half, "upper half-width equals the prediction interval", rtol=1e-4,
                atol=1e-6 * size + 1e-12)
        c.close(df.fcst - df.fcst_lower, half, "lower half-width equals the prediction interval", rtol=1e-4,
                atol=1e-6 * size + 1e-12)
        fc.ordered(c, df, 1e-6)
        c.check(frozen.unchanged(ts), "the data are unchanged")
        # the same model asked again gives the same, and a longer horizon extends it
        more = m.predict(steps + c.int(1, 3), freq=freq)
        c.close(more.fcst[:steps], df.fcst[-steps:], "a longer horizon extends the forecast", rtol=1e-6,
                atol=1e-9 * size)
        if c.chance(0.1):
            two = TimeSeriesData(pd.DataFrame({"time": t, "a": v, "b": v}))
            c.raises((ValueError,), "multivariate data are refused", Model, two, Params())
    return run


def heuristic(c):
    n = c.choice([3, 4, 5, 9, 14, 30, 61])
    ts, t, v, freq = fc.series(c, n, kind=c.choice(KINDS))
    steps = c.choice([1, 2, 3, 5, 7, max(1, n // 2), n])
    steps = min(steps, n)
    method = c.choice(["last", "mean", "median", "percentile"])
    qn = c.choice([0, 1, 5, 25, 50, 75, 95, 99, 100, c.int(0, 100)])
    hist = c.chance(0.35)
    c.note(n=n, freq=freq, steps=steps, method=method, quantile=qn, history=hist, first=list(v[:5]))
    c.state("heuristic", n, freq, steps, method, qn, hist)
    frozen = gen.Frozen(ts)
    p = SimpleHeuristicModelParams(method=method, quantile=qn)
    p.validate_params()
    m = SimpleHeuristicModel(ts, p)
    m.fit()
    if c.chance(0.35):
        m.predict(c.int(1, n), freq=c.choice([freq, "H"]), include_history=c.chance(0.5))
    df = m.predict(steps, include_history=hist, **({"freq": freq} if c.chance(0.6) else {}))
    c.event("one-step forecasts", steps == 1)
    c.event("history forecasts", hist)
    fc.columns(c, df)
    fc.dates(c, df, (list(t) if hist else []) + fc.future(t[-1], steps, freq))
    # reference: the value at the same place in each complete earlier block of `steps` rows
    blocks = n // steps
    want = []
    for h in range(steps):
        past = [float(v[n - steps * (b + 1) + h]) for b in range(blocks)]
        s = sorted(past)
        if method == "last":
            want.append(past[0])
        elif method == "mean":
            want.append(sum(past) / len(past))
        else:
            pos = (len(s) - 1) * (0.5 if method == "median" else qn / 100)
            lo = int(np.floor(pos))
            hi = min(lo + 1, len(s) - 1)
            want.append(s[lo] + (s[hi] - s[lo]) * (pos - lo))
    want = (list(v) if hist else []) + want
    tol = 1e-9 * (np.abs(v).max() + 1e-12)
    for col in ("fcst", "fcst_lower", "fcst_upper"):
        c.close(df[col], want, f"{col} equals the {method} of the earlier blocks", atol=tol)
    c.check(frozen.unchanged(ts), "the data are unchanged")
    if c.chance(0.1):
        for bad in ({"method": "nope"}, {"quantile": -1}, {"quantile": 101}, {"quantile": 5.5}):
            c.raises((ValueError,), "invalid parameters are refused", SimpleHeuristicModelParams(**bad).validate_params)
        two = TimeSeriesData(pd.DataFrame({"time": t, "a": v, "b": v}))
        c.raises((ValueError,), "multivariate data are refused", SimpleHeuristicModel, two, p)


def basis(times, period, order):
    hours = np.array([(x - pd.Timestamp(0)).total_seconds() / 3600 for x in times])
    cols = []
    for k in range(1, order + 1):
        cols += [np.sin(2 * np.pi * k * hours / period), np.cos(2 * np.pi * k * hours / period)]
    return np.array(cols).T


def harmonic(c):
    order = c.int(1, 4)
    n = c.int(2 * order + 3, 90)
    freq, step = c.choice([("H", 1.0), ("30min", 0.5), ("15min", 0.25), ("6H", 6.0), ("D", 24.0)])
    period = step * c.choice([2.5 * order, 4.0 * order, 7.3 * order, 24.0, 12.0, n * 0.9])
    t = pd.date_range(gen.start(c), periods=n, freq=freq)
    if c.chance(0.3):
        t = t[np.sort(c.rng.permutation(n)[: max(2 * order + 3, n - 5)])]
    n = len(t)
    X = basis(t, period, order)
    v = c.rng.normal(0, 1, n) * c.choice([0.0, 0.1, 3]) + X @ c.rng.normal(0, 5, 2 * order) + c.choice([0, 10, -300])
    if np.linalg.cond(X) > 50:
        raise Skip()
    c.note(n=n, freq=freq, period=period, order=order, first=list(v[:5]))
    c.state("harmonic", n, freq, period, order)
    ts = TimeSeriesData(time=pd.Series(t), value=pd.Series(v))
    frozen = gen.Frozen(ts)
    m = HarmonicRegressionModel(ts, HarmonicRegressionParams(period, order))
    c.raises((ValueError,), "predicting before fitting is refused", m.predict, pd.Series(t))
    m.fit()
    if c.chance(0.2):
        m.fit()
    far = pd.date_range(t[-1] + pd.Timedelta(hours=step), periods=c.int(1, 40), freq=freq)
    ask = pd.Series((list(t) + list(far))[c.int(0, 5):])
    if c.chance(0.3):
        ask = ask.sample(frac=1.0, random_state=c.rng)
        if c.chance(0.5):
            ask = ask.reset_index(drop=True)
    df = m.predict(ask)
    fc.columns(c, df, ["time", "fcst"])
    c.check(list(df.time) == list(ask), "one forecast per requested time, in order")
    y = v - v.mean()
    beta = np.linalg.lstsq(X, y, rcond=None)[0]
    want = basis(list(ask), period, order) @ beta
    c.close(df.fcst, want, "forecast equals the least-squares harmonics", rtol=1e-4,
            atol=1e-4 * (np.abs(y).max() + 1e-6))
    one = ask.iloc[:1]
    c.close(m.predict(one).fcst, want[:1], "forecasts do not depend on the other times asked for", rtol=1e-4,
            atol=1e-4 * (np.abs(y).max() + 1e-6))
    c.check(frozen.unchanged(ts), "the data are unchanged")
    if c.chance(0.2):
        for bad in ((0, 1), (-3, 2), (24, 0), (24, -1)):
            c.raises((ValueError,), "invalid parameters are refused", HarmonicRegressionParams, *bad)
        two = TimeSeriesData(pd.DataFrame({"time": t, "a": v, "b": v}))
        c.raises((ValueError,), "multivariate data are refused", HarmonicRegressionModel, two,
                 HarmonicRegressionParams(24, 1))


SCENARIOS = [
    ("linear", 60, 1500, regression(1, LinearModel, LinearModelParams)),
    ("quadratic", 60, 1500, regression(2, QuadraticModel, QuadraticModelParams)),
    ("heuristic", 120, 4000, heuristic),
    ("harmonic", 60, 1500, harmonic),
]
