"""C24: temporal hierarchies: aggregation, reconciliation, validation of base forecasts."""
import math

import gen
import numpy as np
import pandas as pd
from core import Skip
from kats.consts import TimeSeriesData
from kats.models.arima import ARIMAModel, ARIMAParams
from kats.models.holtwinters import HoltWintersModel, HoltWintersParams
from kats.models.linear_model import LinearModel, LinearModelParams
from kats.models.quadratic_model import QuadraticModel, QuadraticModelParams
from kats.models.reconciliation.base_models import BaseTHModel, GetAggregateTS
from kats.models.reconciliation.thm import TemporalHierarchicalModel
from kats.models.theta import ThetaModel, ThetaParams
from sklearn.covariance import MinCovDet

PROPERTY = "C24"
RULE = ("random series and level sets (divisors or not, any order), base forecasts and residuals given or from fitted models, every "
        "reconciliation method, step counts that are multiples of the common period or not; distinct = (levels, method, steps) signature")
ASSUMPTIONS = ["the base models are judged by other properties and trusted here",
               "when a method needs more base forecasts than were given (steps no multiple of the common period), nothing is judged"]
JOBS = 8
METHODS = ["bu", "median", "struc", "svar", "hvar", "mint_shrink", "mint_sample"]


def levels(c):
    return list(c.choice([[1, 2], [1, 4], [2, 1, 4], [1, 2, 3], [12, 1, 3], [1, 2, 6], [1], [3, 1], [7, 1], [1, 4, 6], [1, 5, 10], [6, 3, 2, 1]]))


def sums(v, k):
    return np.array([math.fsum(v[i:i + k]) for i in range(0, len(v) - k + 1, k)])


def summing(ks, m):
    rows = []
    for k in ks:
        for i in range(m // k):
            rows.append([1.0 if i * k <= j < (i + 1) * k else 0.0 for j in range(m)])
    return np.array(rows)


def blocks(res, ks, m):
    h = min(len(res[k]) // (m // k) for k in ks)
    rows = []
    for k in ks:
        f = m // k
        last = np.asarray(res[k])[len(res[k]) - h * f:]
        rows += [last[i::f] for i in range(f)]
    return np.array(rows)


def weights(method, res, ks, m):
    """covariance of the base forecasts' errors each method assumes"""
    if method == "struc":
        return np.diag([float(k) for k in ks for _ in range(m // k)])
    if method == "svar":
        return np.diag([float(np.mean(np.square(res[k]))) + 1e-5 for k in ks for _ in range(m // k)])
    b = blocks(res, ks, m)
    d = b - b.mean(axis=1, keepdims=True)
    if method == "hvar":
        return np.diag((d ** 2).mean(axis=1) + 1e-5)
    cov = d @ d.T / (b.shape[1] - 1)
    if method == "mint_shrink":
        s = np.sqrt(np.diag(cov))
        off = [cov[i, j] / s[i] / s[j] for i in range(len(s)) for j in range(len(s)) if i != j]
        lam = max(0.0, float(np.var(off) / np.sum(np.square(off))))
        cov = np.where(np.eye(len(s)) > 0, cov, (1 - lam) * cov)
    return cov + 1e-5 * np.eye(len(cov))


def reconcile(method, base, res, ks, m, h):
    """values of level 1 over h whole periods"""
    if method == "bu":
        return base[1][:h * m]
    if method == "median":
        return np.median(np.array([np.repeat(base[k][:h * m // k] / k, k) for k in ks]), axis=0)
    s, w = summing(ks, m), weights(method, res, ks, m)
    if np.linalg.cond(w) > 1e9:
        raise Skip("the errors' covariance is nearly singular")
    low = np.linalg.cholesky(w)
    a = np.linalg.solve(low, s)
    out = []
    for i in range(h):
        y = np.concatenate([base[k][i * m // k:(i + 1) * m // k] for k in ks])
        out.append(np.linalg.lstsq(a, np.linalg.solve(low, y), rcond=None)[0])      # weighted least squares
    return np.concatenate(out)


def history(c, n):
    freq = c.choice(["D", "D", "H", "W", "15min"])
    t = pd.date_range(c.choice(["2021-01-03", "2020-02-23"]), periods=n, freq=freq)
    v = 50 + c.choice([0, 0.3]) * np.arange(n) + c.choice([0, 4.0]) * np.sin(np.arange(n) * 2 * np.pi / 12) + c.rng.normal(0, 1, n)
    tn, vn = c.choice(["time", "time", "ds"]), c.choice(["value", "value", "fcst_y", "y"])
    return TimeSeriesData(pd.DataFrame({tn: t, vn: v}), time_col_name=tn), t, v, freq


def verify(c, got, which, ks, want, t, freq, steps, last, base=None, rtol=1e-6):
    top = sorted(ks, reverse=True)
    scale = max(1.0, float(np.abs(want).max()))
    step = pd.tseries.frequencies.to_offset(freq)
    c.check(sorted(got["fcst"]) == sorted(which), "the levels answered are not those asked for", got=sorted(got["fcst"]), want=sorted(which))
    for part, frames in got.items():
        for k, f in frames.items():
            n = steps // k
            c.check(list(f.columns) == ["time", "fcst"] and len(f) == n, "a level has another number of forecasts", part=part, level=k, got=len(f), want=n)
            c.check([pd.Timestamp(x) for x in f.time] == [last + step * (k * (i + 1)) for i in range(n)], "the times of a level are not its own", level=k,
                    got=list(f.time)[:2], last=last, freq=freq)
            if part == "fcst":
                c.close(f.fcst.values, sums(want[:steps], k), "the reconciled forecasts are not those of the method", rtol=rtol, atol=rtol * scale, level=k)
            else:
                c.close(f.fcst.values, base[k][:n], "the base forecasts reported are not those given", rtol=max(rtol, 1e-9), level=k)
    if 1 in got["fcst"]:
        one = got["fcst"][1].fcst.values
        for k in which:
            c.close(got["fcst"][k].fcst.values, sums(one, k), "the forecasts of a level are not the sums of those of level 1", rtol=1e-9, atol=1e-9 * scale, level=k)
            c.event("levels found coherent")
    c.event("forecasts judged", sum(len(f) for f in got["fcst"].values()))
    return top


def given(c):
    ks = levels(c)
    m = math.lcm(*ks)
    x, t, v, freq = history(c, c.choice([24, 60, 61]))
    top = sorted(ks, reverse=True)
    steps = c.choice([m, 2 * m, 3 * m, m + 1, 2 * m + max(1, m // 2), max(1, m - 1), 1])
    h = -(-steps // m)
    kind = c.choice(["noisy", "noisy", "coherent", "one wild"])
    base1 = c.rng.normal(20, 5, h * m)
    base = {k: sums(base1, k) + (0 if kind == "coherent" else c.rng.normal(0, 1 + k / 2, h * m // k)) for k in ks}
    if kind == "one wild":
        k = c.choice(ks)
        base[k] = base[k] + c.choice([200.0, -300.0])
    rows = c.choice([3 * m, 8 * m, 8 * m + 1, 30 * m])
    res = {k: c.rng.normal(c.choice([0, 0.5]), c.choice([0.5, 2.0]) * math.sqrt(k), rows // k + c.choice([0, 0, 1])) for k in ks}
    extra = c.choice([0, 0, 2])
    models = [BaseTHModel(level=k, residuals=res[k].copy(), fcsts=np.r_[base[k], c.rng.normal(0, 1, extra)]) for k in ks]
    method = c.choice(METHODS if len(ks) > 1 else METHODS[:5])
    which = None if c.chance(0.6) else [k for k in sorted({1, 2, 3, m}) if c.chance(0.5)] or [1]
    kw = {"method": method, "origin_fcst": c.chance(0.4)}
    if which is not None:
        kw["fcst_levels"] = list(which)
    if c.chance(0.3):
        kw["freq"] = freq
    last = t[-1]
    if c.chance(0.2):
        last = kw["last_timestamp"] = t[len(t) // 2]
    c.note(levels=ks, method=method, steps=steps, kind=kind, rows=rows, kw=kw)
    frozen = gen.Frozen(x)
    tm = TemporalHierarchicalModel(x, models)
    tm.fit()
    if c.chance(0.3):
        tm.predict(steps=m, method=c.choice(["bu", "svar", "hvar"]))     # earlier questions must not matter
    want = reconcile(method, base, res, top, m, h)
    cond = 1.0
    if method.startswith("mint"):
        cond = np.linalg.cond(weights(method, res, top, m))
    rtol = max(1e-7, 1e-14 * cond)
    if rtol > 1e-5:
        raise Skip("the errors' covariance is nearly singular")
    got = tm.predict(steps=steps, **kw)
    verify(c, got, top if which is None else which, ks, want, t, freq, steps, last, base, rtol)
    c.check(("origin_fcst" in got) == kw["origin_fcst"], "the base forecasts are reported although not asked for, or the reverse")
    if kind == "coherent" and method != "median":
        for k in got["fcst"]:
            c.close(got["fcst"][k].fcst.values, sums(base1[:steps], k), "coherent forecasts are changed by the reconciliation", rtol=1e-6, atol=1e-5, level=k)
        c.event("coherent forecasts kept")
    if method not in ("bu", "median"):
        w = np.asarray(tm.get_W(method))
        c.close(w if w.ndim == 2 else np.diag(w), weights(method, res, top, m), "the weights are not those of the method", rtol=1e-7, atol=1e-12, method=method)
        c.close(tm.get_S(), summing(top, m), "the summing matrix does not sum")
    c.check(frozen.unchanged(x), "the caller's series changes")
    c.check(all(np.array_equal(b.residuals, res[b.level]) for b in models), "the caller's residuals change")
    c.state("given", tuple(ks), method, steps, kind)


FITTED = {"linear": (LinearModel, lambda c: LinearModelParams(alpha=0.05)), "quadratic": (QuadraticModel, lambda c: QuadraticModelParams(alpha=0.05)),
          "holtwinters": (HoltWintersModel, lambda c: HoltWintersParams(trend=c.choice(["add", None]))),
          "arima": (ARIMAModel, lambda c: ARIMAParams(p=1, d=c.choice([0, 1]), q=0)), "theta": (ThetaModel, lambda c: ThetaParams(m=1))}


def fitted(c):
    ks = c.choice([[1, 2], [1, 3], [4, 1, 2], [1, 2, 3]])
    m = math.lcm(*ks)
    top = sorted(ks, reverse=True)
    x, t, v, freq = history(c, c.choice([48, 60, 73]))
    method = c.choice(METHODS)
    simple = method in ("svar", "hvar", "mint_shrink", "mint_sample")
    steps = c.choice([m, 2 * m, 2 * m + 1])
    h = -(-steps // m)
    plan, models, base, res = {}, [], {}, {}
    for k in ks:
        agg = v if k == 1 else sums(v[len(v) % k:], k)
        kind = c.choice(["linear", "quadratic", "given"] if simple else list(FITTED) + ["given"])
        plan[k] = kind
        if kind == "given":
            base[k], res[k] = agg.mean() + c.rng.normal(0, 1, h * m // k), c.rng.normal(0, 1 + k / 3, len(agg))
            models.append(BaseTHModel(level=k, residuals=res[k].copy(), fcsts=base[k].copy()))
            continue
        cls, par = FITTED[kind]
        p = par(c)
        models.append(BaseTHModel(level=k, model_name=kind, model_params=p))
        if kind in ("linear", "quadratic"):
            i = np.arange(len(agg), dtype=float)
            j = np.arange(len(agg), len(agg) + h * m // k, dtype=float)
            co = np.polyfit(i, agg, 1 if kind == "linear" else 2)
            base[k], res[k] = np.polyval(co, j), agg - np.polyval(co, i)
        else:
            y = TimeSeriesData(pd.DataFrame({"time": t[len(v) % k + k - 1::k], "value": agg}))
            mod = cls(y, p)
            mod.fit()
            base[k] = np.asarray(mod.predict(steps=h * m // k, freq="D")["fcst"], float)
    c.note(levels=ks, method=method, steps=steps, plan=plan, n=len(v), names=(x.time_col_name, x.value.name))
    tm = TemporalHierarchicalModel(x, models)
    tm.fit()
    if simple and np.linalg.cond(weights(method, res, top, m)) > 1e8:
        raise Skip("the errors' covariance is nearly singular")
    got = tm.predict(steps=steps, method=method, origin_fcst=c.chance(0.4))
    verify(c, got, ks, ks, reconcile(method, base, res, top, m, h), t, freq, steps, t[-1], base, rtol=1e-5)
    c.event("hierarchies of models")
    c.state("fitted", tuple(sorted(plan.items())), method, steps)


def aggregate(c):
    x, t, v, _ = history(c, c.choice([5, 24, 31, 60]))
    if c.chance(0.3):
        t = t.tz_localize("UTC")
        x = TimeSeriesData(pd.DataFrame({x.time_col_name: t, "value": v}), time_col_name=x.time_col_name)
    ks = [c.int(1, min(9, len(v))) for _ in range(c.int(1, 4))]
    frozen = gen.Frozen(x)
    got = GetAggregateTS(x).aggregate(list(ks))
    c.check(sorted(got) == sorted(set(ks)), "the levels aggregated are not those asked for", got=sorted(got), want=ks)
    for k in ks:
        skip = len(v) % k
        c.check([pd.Timestamp(a) for a in got[k].time] == list(t[skip + k - 1::k]), "an aggregate is not stamped with the last time of its block", level=k,
                n=len(v), got=list(got[k].time)[:2])
        c.close(got[k].value, sums(v[skip:], k), "an aggregate is not the sum of its block", level=k, n=len(v))
        c.event("aggregates judged", len(v) // k)
    c.check(frozen.unchanged(x), "the caller's series changes")
    c.state("aggregate", tuple(ks), len(v))


def validation(c):
    ks = c.choice([[1, 2, 4], [1, 2, 3, 6], [1, 2, 3, 4, 6, 12], [1, 5], [1, 2, 4, 8]])
    m = math.lcm(*ks)
    x, t, v, freq = history(c, 30)
    steps = m * c.choice([1, 2])
    base1 = c.rng.normal(20, 2, steps)
    base = {k: sums(base1, k) + c.rng.normal(0, 0.3 * k, steps // k) for k in ks}
    bad = c.choice(ks) if c.chance(0.7) else None
    if bad:
        base[bad] = base[bad] + c.choice([1.0, 10.0, 80.0]) * bad
    models = [BaseTHModel(level=k, residuals=np.ones(4 * m // k), fcsts=base[k]) for k in ks]
    tm = TemporalHierarchicalModel(x, models)
    tm.fit()
    thr = c.choice([5.0, 5.0, 2.0, 0.5])
    met = c.choice(["mae", "mae", "mape", "rmse"])
    kw = {} if (thr, met) == (5.0, "mae") and c.chance(0.5) else {"dist_metric": met, "threshold": thr}
    got = tm.median_validation(steps, **kw)
    one = reconcile("median", base, None, sorted(ks, reverse=True), m, steps // m)
    d = {}
    for k in sorted(ks, reverse=True):
        a, b = sums(one, k), base[k]
        d[k] = {"mae": np.abs(a - b).mean() / k, "mape": np.abs((a - b) / a).mean(), "rmse": math.sqrt(((a - b) ** 2).mean())}[met]
    z = np.array(list(d.values()))
    try:
        s = math.sqrt(MinCovDet().fit(z[:, None]).covariance_[0, 0])
    except Exception:
        s = float(np.subtract(*np.percentile(z, [75, 25])))
    up = float(np.median(z)) + s * thr
    if min(abs(q - up) for q in z) < 1e-9 * max(1.0, abs(up)):
        raise Skip("a distance at the limit")
    c.check(sorted(got) == sorted(k for k in ks if d[k] >= up), "the levels called bad are not those far from the median forecast", got=got, want=d, limit=up,
            metric=met, threshold=thr)
    c.event("validations judged")
    c.event("bad levels found", len(got))
    c.state("validation", tuple(ks), met, thr, len(got))


def refused(c):
    what = c.choice(["level", "no model", "unknown model", "no forecasts", "missing 1", "twice", "multivariate", "not a model", "early", "method", "W",
                     "too few", "aggregate level", "aggregate long", "metric"])
    c.note(what=what)
    x, t, v, _ = history(c, 24)
    r = np.ones(8)
    full = lambda k: BaseTHModel(level=k, residuals=np.arange(8.0 // k), fcsts=np.ones(8 // k))
    two = TimeSeriesData(pd.DataFrame({"time": t, "a": v, "b": v}))
    if what == "level":
        c.raises(ValueError, "an impossible level is taken", BaseTHModel, c.choice([0, -1, 1.5, "1"]), residuals=r, fcsts=r)
    elif what == "no model":
        c.raises(ValueError, "a base model without forecasts or model is taken", BaseTHModel, 1, **c.choice([{}, {"residuals": r}, {"fcsts": r},
                 {"model_name": "linear"}, {"model_params": LinearModelParams(alpha=0.05)}]))
    elif what == "unknown model":
        c.raises(ValueError, "an unknown model is taken", BaseTHModel, 1, model_name="lstm", model_params=object())
    elif what == "no forecasts":
        c.raises(ValueError, "empty forecasts are taken", BaseTHModel, 1, residuals=r, fcsts=np.array([]))
    elif what == "missing 1":
        c.raises(ValueError, "a hierarchy without level 1 is taken", TemporalHierarchicalModel, x, [full(2), full(4)])
    elif what == "twice":
        c.raises(ValueError, "a level with two models is taken", TemporalHierarchicalModel, x, [full(1), full(2), full(2)])
    elif what == "multivariate":
        c.raises(ValueError, "several columns are taken", c.choice([lambda: TemporalHierarchicalModel(two, [full(1)]), lambda: GetAggregateTS(two)]))
    elif what == "not a model":
        c.raises(ValueError, "something else is taken for a base model", TemporalHierarchicalModel, x, [full(1), "linear"])
    elif what == "early":
        c.raises(ValueError, "a forecast is made before fitting", TemporalHierarchicalModel(x, [full(1)]).predict, 4)
    elif what in ("method", "W", "too few", "metric"):
        tm = TemporalHierarchicalModel(x, [full(1), full(2)])
        tm.fit()
        if what == "method":
            c.raises(ValueError, "an unknown method is taken", tm.predict, 4, c.choice(["ols", "STRUC"]))
        elif what == "W":
            c.raises(ValueError, "an unknown method is taken", tm.get_W, c.choice(["bu", "median", "x"]))
        elif what == "too few":
            c.raises(ValueError, "more forecasts are made than the base models gave", tm.predict, c.choice([10, 20]), c.choice(METHODS))
        else:
            c.raises(ValueError, "an unknown distance is taken", tm.median_validation, 4, "nearness")
    elif what == "aggregate level":
        c.raises(ValueError, "an impossible level is taken", GetAggregateTS(x).aggregate, c.choice([[0], [1, -2], [1.5], 3, (1, 2)]))
    else:
        c.raises(ValueError, "a level longer than the data is taken", GetAggregateTS(x).aggregate, [c.choice([25, 100])])
    c.state("refused", what)


SCENARIOS = [("given", 320, 3000, given), ("fitted", 80, 600, fitted), ("aggregate", 80, 500, aggregate), ("validation", 80, 600, validation),
             ("refused", 60, 200, refused)]
NEED = {"forecasts judged": 1500, "levels found coherent": 250, "coherent forecasts kept": 30, "hierarchies of models": 40, "aggregates judged": 500,
        "validations judged": 40, "bad levels found": 5, "refusals observed": 40}
