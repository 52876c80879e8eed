"""C07: backtesters and cross validation score the right forecasts on the right rows."""
import math
import os
import time
from functools import partial

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
from kats.models.linear_model import LinearModel, LinearModelParams
from kats.utils import backtesters as B
from kats.utils import datapartition as D

import gen
from core import Skip

PROPERTY = "C07"
RULE = ("random univariate series (10-80 rows), every backtester class and cross validation, percentages, gaps, "
        "folds, serial and parallel with delays injected into the models, failing models at chosen folds, repeated "
        "runs; the model is a recorder whose forecasts depend on exactly what it was given; distinct = (class, "
        "split parameters, fold sizes, finishing order) signature")
ASSUMPTIONS = ["models are deterministic", "the weighted summary is judged when every fold succeeds"]

METRICS = ["mae", "mse", "rmse", "mape", "smape", "me", "mdae", "mpe", "sbias"]


def score(name, y, p):
    e = [a - b for a, b in zip(y, p)]
    r = lambda a, b: (0.0 if a == 0 else math.copysign(1.0, a)) if b == 0 else a / b
    n = len(e)
    if name == "mae":
        return math.fsum(map(abs, e)) / n
    if name in ("mse", "rmse"):
        return (math.fsum(x * x for x in e) / n) ** (0.5 if name == "rmse" else 1)
    if name == "mape":
        return math.fsum(abs(r(x, a)) for x, a in zip(e, y)) / n
    if name == "mpe":
        return math.fsum(r(x, a) for x, a in zip(e, y)) / n
    if name == "me":
        return math.fsum(e) / n
    if name == "mdae":
        s = sorted(map(abs, e))
        return (s[(n - 1) // 2] + s[n // 2]) / 2
    d = [abs(a) + abs(b) for a, b in zip(y, p)]
    if name == "smape":
        return 2 * math.fsum(r(abs(x), q) for x, q in zip(e, d)) / n
    return -2 * math.fsum(r(x, q) for x, q in zip(e, d)) / n


class Plan:
    """Parameters of the recording model."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __eq__(self, o):
        return self.__dict__ == o.__dict__


def formula(values, steps, a, b):
    return [a * values[-1] + b * len(values) + math.sin(i + 1) * (1 + abs(values[0])) for i in range(steps)]


class Recorder:
    """A forecaster whose output identifies the data, parameters and horizon it was given."""

    def __init__(self, data, params):
        self.data, self.params = data, params
        self.fitted = 0
        self.pid = os.getpid()

    def fit(self):
        self.fitted += 1
        v = self.data.value.values
        time.sleep(self.params.delay.get(len(v), 0) if isinstance(self.params.delay, dict) else self.params.delay)
        for bad in self.params.fail:
            if float(v[-1]) == bad:
                raise ArithmeticError("injected failure")
        self.finished = time.time()
        return self

    def predict(self, steps, freq=None, **kw):
        assert self.fitted == 1
        self.steps, self.freq = steps, freq
        v = [float(x) for x in self.data.value.values]
        t = pd.date_range(self.data.time.iloc[-1], periods=steps + 1, freq=freq or "D")[1:]
        f = formula(v, steps, self.params.a, self.params.b)
        return pd.DataFrame({"time": t[:steps], "fcst": f, "fcst_lower": f, "fcst_upper": f})


def series(c, n):
    v = np.asarray(gen.values(c, n, c.choice(["normal", "int", "pos", "steps"])), dtype=float)
    v = v + np.arange(n) * 1e-3 + 0.37  # distinct rows
    freq = c.choice(["D", "H", "MS", "W-SUN"])
    ts = TimeSeriesData(time=pd.Series(pd.date_range("2019-01-06", periods=n, freq=freq)), value=pd.Series(v, name="q"))
    return ts, v, freq


def folds(kind, n, tr, te, wi, k):
    a, b, w = int(n * tr // 100), int(n * te // 100), int(n * wi // 100)
    if kind in ("simple", "fixed"):
        return [(0, a, a + w, a + w + b)]
    if k == 1:
        return [(0, a, a, a + b)]
    room = n - a - b
    q, r = divmod(room, k - 1)
    out, o = [], 0
    for i in range(k):
        out.append((o if kind in ("rolling", "cvroll") else 0, a + o, a + o, a + o + b))
        o += q + (1 if i < r else 0)
    return out


def build(kind, c, ts, plan, tr, te, wi, k, names, multi, model=Recorder):
    kw = {}
    if kind == "simple":
        return B.BackTesterSimple(names, ts, plan, tr, te, model, **kw)
    if kind == "fixed":
        return B.BackTesterFixedWindow(names, ts, plan, tr, te, wi, model)
    if kind == "origin":
        return B.BackTesterRollingOrigin(names, ts, plan, tr, te, k, model, constant_train_size=False, multi=multi)
    if kind == "expanding":
        return B.BackTesterExpandingWindow(names, ts, plan, tr, 100 - te, te, k, model, multi=multi)
    if kind == "rolling":
        if c.chance(0.5):
            return B.BackTesterRollingOrigin(names, ts, plan, tr, te, k, model, constant_train_size=True, multi=multi)
        return B.BackTesterRollingWindow(names, ts, plan, tr, te, k, model, multi=multi)
    return B.CrossValidation(names, ts, plan, tr, te, k, model, constant_train_size=kind == "cvroll", multi=multi)


def run(bt):
    (bt.run_cv if isinstance(bt, B.CrossValidation) else bt.run_backtest)()


def classic(c, multi=False):
    kind = c.choice(["origin", "expanding", "rolling", "cvexp", "cvroll"] + ([] if multi else ["simple", "fixed"]))
    n = c.int(10, 80)
    ts, v, freq = series(c, n)
    tr, te = c.choice([20, 33, 40, 50, 60, 75]), c.choice([10, 15, 20, 25])
    wi = c.choice([0, 5, 10, 20]) if kind == "fixed" else 0
    if tr + te + wi > 100 or int(n * te // 100) < 1:
        raise Skip
    k = c.choice([1, 2, 3, 4, 5]) if multi else c.choice([1, 2, 3, 4, 6, 9])
    want = folds(kind, n, tr, te, wi, k)
    if tr + te == 100 and k > 1:
        raise Skip
    if k > 1 and kind not in ("simple", "fixed") and int(n * tr // 100) + int(n * te // 100) >= n:
        raise Skip
    names = [METRICS[i] for i in c.rng.permutation(len(METRICS))[: c.int(1, 5)]]
    plan = Plan(a=c.rng.normal(), b=c.rng.normal() * 0.01, fail=[],
                delay={f[1] - f[0]: c.choice([0, 0.005, 0.03]) for f in want} if multi else 0)
    c.note(kind=kind, n=n, tr=tr, te=te, gap=wi, folds=k, freq=freq, multi=multi, metrics=names)
    keep = gen.Frozen(ts)
    bt = build(kind, c, ts, plan, tr, te, wi, k, names, multi)
    for again in range(c.choice([1, 1, 2])):
        run(bt)
        judge(c, bt, v, ts, want, names, plan, multi, wi * n // 100, freq)
        c.event("runs" if not again else "repeated runs")
    c.check(keep.unchanged(ts), "the data is left alone")
    for x in ("nope", "median_absolute_error"):
        c.raises((ValueError,), "an error that was not asked for", bt.get_error_value, x)
    c.state(kind, n, tr, te, wi, k, multi)


def judge(c, bt, v, ts, want, names, plan, multi, gap, freq):
    c.check(len(bt.results) == len(want) == len(bt.raw_errors), "one result per fold", got=len(bt.results),
            raw=len(bt.raw_errors), want=len(want))
    total = sum(f[3] - f[2] for f in want)
    sums = {m: 0.0 for m in names}
    t = pd.DatetimeIndex(ts.time)
    for (a, b, x, y), (train, truth, model, pred), raw in zip(want, bt.results, bt.raw_errors):
        c.close(train, v[a:b], "training values of a fold", rtol=0, atol=0, fold=(a, b, x, y))
        c.close(truth, v[x:y], "actual values of a fold", rtol=0, atol=0, fold=(a, b, x, y))
        f = formula([float(q) for q in v[a:b]], y - b, plan.a, plan.b)[x - b:]
        c.close(pred, f, "forecasts lined up with the actual values", rtol=1e-12, fold=(a, b, x, y))
        c.close(raw, [p - q for p, q in zip(v[x:y], f)], "raw errors", rtol=1e-9, atol=1e-9)
        c.check(list(pd.DatetimeIndex(model.data.time)) == list(t[a:b]), "the model saw the training times only")
        c.check(model.fitted == 1 and model.steps == y - b, "a fresh model, asked for the right horizon",
                steps=model.steps, want=y - b)
        c.check(model.freq == pd.infer_freq(t), "the frequency of the data", got=model.freq)
        c.check(model.params == plan, "the given parameters")
        c.check((model.pid != os.getpid()) == multi, "parallel folds run in their own process")
        for m in names:
            sums[m] += score(m, v[x:y], f) * (y - x) / total
        c.event("folds compared")
    c.check(len({id(r[2]) for r in bt.results}) == len(want), "no model is shared by two folds")
    for m in names:
        c.close(float(bt.get_error_value(m)), sums[m], "error averaged by fold length", rtol=1e-9, atol=1e-9, metric=m)
        c.close(float(bt.errors[m]), sums[m], "errors table", rtol=1e-9, atol=1e-9, metric=m)
        c.event("errors compared")
    if multi:
        order = tuple(int(i) for i in np.argsort([r[2].finished for r in bt.results]))
        c.state("finishing order", order)
        c.event("parallel runs")


def parallel(c):
    classic(c, True)


def failing(c):
    """A model that fails in some fold makes the run fail; nothing is silently dropped."""
    multi = c.chance(0.4)
    n = c.int(20, 50)
    ts, v, freq = series(c, n)
    k = c.int(2, 4)
    kind = c.choice(["origin", "rolling", "cvexp", "cvroll"])
    want = folds(kind, n, 40, 20, 0, k)
    bad = c.choice(want)
    plan = Plan(a=1.0, b=0.0, fail=[float(v[bad[1] - 1])], delay=0)
    bt = build(kind, c, ts, plan, 40, 20, 0, k, ["mae"], multi)
    c.note(kind=kind, n=n, folds=k, fails=want.index(bad), multi=multi)
    c.raises((ArithmeticError,), "the failure of one fold surfaces", run, bt)
    c.event("injected failures")
    c.state("fail", kind, n, k, want.index(bad), multi)


def forecaster(train, test, a, b, fail, delay, log):
    """A forecaster over one or many series."""
    if isinstance(train, TimeSeriesData):
        parts = [(train, test)]
    elif isinstance(train, dict):
        parts = [(train[k], test[k]) for k in train]
    else:
        parts = list(zip(train, test))
    time.sleep(delay.get(len(parts[0][0]), 0))
    if float(parts[0][0].value.values[-1]) in fail:
        log.append(("failed", len(parts[0][0])))
        raise ArithmeticError("injected failure")
    out = []
    for tr, te in parts:
        v = [float(x) for x in tr.value.values]
        out.append(pd.DataFrame({"y": te.value.values, "fcst": formula(v, len(te), a, b)}))
    log.append(("done", len(parts[0][0])))
    return pd.concat(out)


def mean_gap(result):
    return {"gap": float(np.mean(result["y"] - result["fcst"])), "rows": float(len(result))}


def generic(c):
    shape = c.choice(["one", "one", "list", "dict"])
    kn = 1 if shape == "one" else c.int(2, 3)
    all_ = [series(c, c.int(12, 50)) for _ in range(kn)]
    data = all_[0][0] if shape == "one" else [x[0] for x in all_] if shape == "list" else \
        {"s%d" % i: x[0] for i, x in enumerate(all_)}
    k = c.int(1, 5)
    const = c.chance(0.5)
    part = D.RollingOriginDataParition(0.4, 0.2, window_frac=c.choice([0.0, 0.1]), expanding_steps=k,
                                       constant_train_size=const, multi=c.chance(0.3))
    folds_ = part.split(data)
    first = lambda p: p if shape == "one" else p[0] if shape == "list" else p["s0"]
    fails = [i for i in range(k) if c.chance(0.2)]
    summ = c.choice(["average", "average", "weighted"])
    esc = c.choice([float("nan"), float("nan"), 7.5])
    multi = c.chance(0.5)
    scorer = c.choice(["mae", ["mae", "smape"], METRICS[:4], mean_gap])
    names = ["gap", "rows"] if scorer is mean_gap else [scorer] if isinstance(scorer, str) else scorer
    lens = [len(first(f.train)) for f in folds_]
    bad = [float(first(folds_[i].train).value.values[-1]) for i in fails]
    log = []
    a, b = c.rng.normal(), 0.01
    keep, keep_f = c.chance(0.7), c.chance(0.7)
    c.note(shape=shape, folds=k, fails=fails, summarizer=summ, error_score=esc, multi=multi, scorer=names)
    bt = B.GenericBacktester(part, partial(forecaster, a=a, b=b, fail=bad, log=log, delay={
        x: c.choice([0, 0.002, 0.01]) for x in lens}), scorer, summarizer=summ, raw_errors=keep, fold_errors=keep_f,
        multi=multi, max_core=c.choice([None, 2, 4]), error_score=esc)
    c.raises((ValueError,), "no result before a run", bt.get_errors)
    if len(fails) == k:
        c.raises((ValueError,), "no fold can be scored", bt.run_backtester, data)
        c.event("all folds fail")
        return
    if fails and summ == "weighted":
        try:
            bt.run_backtester(data)
        except TypeError:
            c.known("KF-weighted-failed-fold", "the weighted summary crashes when a fold fails")
            return
    else:
        bt.run_backtester(data)
    c.check(len(log) == k, "every fold is run once", got=len(log), want=k)
    res = bt.get_errors()
    want = []
    sizes = []
    for i, f in enumerate(folds_):
        if i in fails:
            want.append({m: esc for m in names})
            sizes.append(0)
            continue
        tr = [f.train] if shape == "one" else f.train if shape == "list" else list(f.train.values())
        te = [f.test] if shape == "one" else f.test if shape == "list" else list(f.test.values())
        y = [float(q) for s in te for q in s.value.values]
        p = [q for s, u in zip(tr, te) for q in formula([float(z) for z in s.value.values], len(u), a, b)]
        sizes.append(len(y))
        if scorer is mean_gap:
            want.append({"gap": math.fsum(q - w for q, w in zip(y, p)) / len(y), "rows": float(len(y))})
        else:
            want.append({m: score(m, y, p) for m in names})
        if keep:
            c.close(res.raw_errors[i][["y", "fcst"]].values, np.array([y, p]).T, "raw result of a fold", fold=i)
    c.check((res.raw_errors is not None) == keep and (res.fold_errors is not None) == keep_f, "kept what was asked for")
    if keep:
        c.check(len(res.raw_errors) == k and all((r is None) == (i in fails) for i, r in enumerate(res.raw_errors)),
                "a raw result per fold, none for failed folds")
    if keep_f:
        c.check(len(res.fold_errors) == k, "errors per fold")
        for i in range(k):
            c.check(sorted(res.fold_errors[i]) == sorted(names), "the error names", got=res.fold_errors[i])
            for m in names:
                c.close(float(res.fold_errors[i][m]), want[i][m], "errors of a fold", rtol=1e-9, atol=1e-9, fold=i, m=m)
                c.event("errors compared")
    for m in names:
        x = [w[m] for w in want]
        if summ == "weighted":
            s = math.fsum(q * z for q, z in zip(x, sizes)) / sum(sizes)
        else:
            ok = [q for q in x if not math.isnan(q)]
            s = math.fsum(ok) / len(ok)
        if summ == "weighted" and fails:
            continue
        c.close(float(res.summary_errors[m]), s, "summary error", rtol=1e-9, atol=1e-9, m=m)
        c.event("summaries compared")
    c.event("failed folds", len(fails))
    c.state("generic", shape, k, tuple(fails), summ, multi, const, tuple(x[1] for x in log))


def kats_model(c):
    """The same numbers with a real Kats model through both interfaces."""
    n = c.int(20, 60)
    ts, v, freq = series(c, n)
    part = D.SimpleDataPartition(train_frac=0.75, multi=False)
    bt = B.KatsSimpleBacktester(part, ["mae", "mape"], LinearModelParams(alpha=0.05), LinearModel, multi=c.chance(0.3))
    bt.run_backtester(ts)
    res = bt.get_errors()
    a = int(n * 0.75)
    x = np.arange(a)
    s, i = np.polyfit(x, v[:a], 1)
    f = i + s * np.arange(a, n)
    c.close(float(res.summary_errors["mae"]), score("mae", v[a:], f), "MAE of a straight line", rtol=1e-6, atol=1e-8)
    r = res.raw_errors[0]
    c.close(r["y"].values, v[a:], "actual values", rtol=0, atol=0)
    c.close(r["fcst"].values, f, "line forecasts", rtol=1e-6, atol=1e-6)
    old = B.BackTesterSimple(["mae", "mape"], ts, LinearModelParams(alpha=0.05), 75, 25 if n % 4 == 0 else 20, LinearModel)
    old.run_backtest()
    y = old.results[0][1]
    c.close(float(old.get_error_value("mae")), score("mae", y, f[: len(y)]), "MAE of a straight line", rtol=1e-6, atol=1e-8)
    c.event("real model runs")
    c.state("kats", n, freq)


def refuse(c):
    ts, v, freq = series(c, c.int(10, 20))
    R = Plan(a=1, b=0, fail=[], delay=0)
    t = (ValueError,)
    for bad in (0, -5, 100.5, 250):
        c.raises(t, "training percentage", B.BackTesterSimple, ["mae"], ts, R, bad, 20, Recorder)
        c.raises(t, "test percentage", B.BackTesterSimple, ["mae"], ts, R, 20, bad, Recorder)
        c.raises(t, "training percentage", B.BackTesterRollingOrigin, ["mae"], ts, R, bad, 20, 2, Recorder)
        c.raises(t, "test percentage", B.BackTesterRollingOrigin, ["mae"], ts, R, 20, bad, 2, Recorder)
        c.raises(t, "test percentage", B.CrossValidation, ["mae"], ts, R, 20, bad, 2, Recorder)
        c.raises(t, "training percentage", B.CrossValidation, ["mae"], ts, R, bad, 20, 2, Recorder)
        c.raises(t, "training percentage", B.BackTesterFixedWindow, ["mae"], ts, R, bad, 20, 10, Recorder)
        c.raises(t, "test percentage", B.BackTesterFixedWindow, ["mae"], ts, R, 20, bad, 10, Recorder)
    for bad in (-1, 101):
        c.raises(t, "gap", B.BackTesterFixedWindow, ["mae"], ts, R, 20, 20, bad, Recorder)
    c.raises(t, "too much data", B.BackTesterRollingOrigin, ["mae"], ts, R, 80, 30, 1, Recorder)
    c.raises(t, "no room for folds", B.BackTesterRollingOrigin, ["mae"], ts, R, 80, 20, 2, Recorder)
    c.raises(t, "negative folds", B.BackTesterRollingOrigin, ["mae"], ts, R, 50, 20, -1, Recorder)
    c.raises(t, "negative folds", B.CrossValidation, ["mae"], ts, R, 50, 20, -1, Recorder)
    c.raises(t, "too much data", lambda: B.BackTesterSimple(["mae"], ts, R, 80, 40, Recorder).run_backtest())
    c.raises(t, "too much data", lambda: B.BackTesterFixedWindow(["mae"], ts, R, 50, 40, 30, Recorder).run_backtest())
    c.raises(t, "no training rows", lambda: B.BackTesterSimple(["mae"], ts, R, 1, 20, Recorder).run_backtest())
    c.raises(t, "no test rows", lambda: B.BackTesterSimple(["mae"], ts, R, 50, 1, Recorder).run_backtest())
    c.raises(t, "unknown error", B.BackTesterSimple, [c.choice(["nope", "ape", "MAE"])], ts, R, 50, 20, Recorder)
    c.raises(t, "unknown error", B.GenericBacktester, D.SimpleDataPartition(train_frac=0.5), forecaster,
             c.choice(["nope", ["mae", "nope"], 5, "ape"]))
    empty = ts[:0]
    c.raises(t, "no data", B.BackTesterSimple, ["mae"], empty, R, 50, 20, Recorder)
    c.raises(t, "no data", B.CrossValidation, ["mae"], empty, R, 50, 20, 2, Recorder)
    c.state("refuse", len(ts), freq)


SCENARIOS = [("classic", 350, 5000, classic), ("parallel", 48, 800, parallel), ("failing", 48, 600, failing),
             ("generic", 200, 4000, generic), ("kats_model", 40, 500, kats_model), ("refuse", 20, 100, refuse)]
NEED = {"folds compared": 500, "errors compared": 1000, "parallel runs": 15, "injected failures": 20,
        "failed folds": 20, "repeated runs": 50, "summaries compared": 100}
