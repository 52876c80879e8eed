"""C05: forecast metrics agree with their textbook formulas."""
import math

import numpy as np
import pandas as pd
from kats.metrics import metadata
from kats.metrics import metrics as M

import gen

PROPERTY = "C05"
RULE = ("random actual / predicted vectors (lists, tuples, arrays, Series; integers, signs, zeros, missing "
        "values, constant, lengths 0-60), weights, 2-D multi-output, thresholds, intervals; every metric is "
        "compared with a loop over scalars; distinct = (metric, data kinds, length, weighting) signature")
ASSUMPTIONS = ["at least one pair is complete unless the vectors are empty",
               "weighted forms are judged on complete data; probability metrics on complete actuals"]
nan = float("nan")


# --- the reference: scalar loops, no numpy reductions
def ratio(a, b):
    if math.isnan(a) or math.isnan(b):
        return nan
    if b == 0:
        return 0.0 if a == 0 else math.copysign(1.0, a)
    return a / b


def mean(xs):
    xs = [x for x in xs if not math.isnan(x)]
    return math.fsum(xs) / len(xs) if xs else nan


def median(xs):
    xs = sorted(x for x in xs if not math.isnan(x))
    if not xs:
        return nan
    h = len(xs) // 2
    return xs[h] if len(xs) % 2 else (xs[h - 1] + xs[h]) / 2


def cdf(sample, x):
    return sum(s <= x for s in sample) / len(sample)


def prob(y, p, power):
    pairs = [(a, b) for a, b in zip(y, p) if not math.isnan(b)]
    if not pairs:
        return nan
    s = [a for a, _ in pairs]
    return mean([abs(cdf(s, b) - cdf(s, a)) ** power for a, b in pairs])


def e(y, p):
    return [a - b for a, b in zip(y, p)]


def scaled(y, p):
    return [ratio(abs(a - b), abs(a) + abs(b)) for a, b in zip(y, p)]


def mase(y, p):
    d = mean([abs(y[i + 1] - y[i]) for i in range(len(y) - 1)])
    return nan if math.isnan(d) or abs(d) <= 1e-8 else mean([abs(x) for x in e(y, p)]) / d


def tracking(y, p):
    m = mean([abs(x) for x in e(y, p)])
    return nan if m == 0 else math.fsum(e(y, p)) / m


ELEMENT = {
    "error": lambda y, p: e(y, p),
    "absolute_error": lambda y, p: [abs(x) for x in e(y, p)],
    "percentage_error": lambda y, p: [ratio(a - b, a) for a, b in zip(y, p)],
    "absolute_percentage_error": lambda y, p: [ratio(abs(a - b), abs(a)) for a, b in zip(y, p)],
}
SCALAR = {
    "mean_error": lambda y, p: mean(e(y, p)),
    "mean_absolute_error": lambda y, p: mean([abs(x) for x in e(y, p)]),
    "median_absolute_error": lambda y, p: median([abs(x) for x in e(y, p)]),
    "mean_percentage_error": lambda y, p: mean(ELEMENT["percentage_error"](y, p)),
    "mean_absolute_percentage_error": lambda y, p: mean(ELEMENT["absolute_percentage_error"](y, p)),
    "median_absolute_percentage_error": lambda y, p: median(ELEMENT["absolute_percentage_error"](y, p)),
    "mean_absolute_scaled_error": mase,
    "mean_squared_error": lambda y, p: mean([x * x for x in e(y, p)]),
    "root_mean_squared_error": lambda y, p: mean([x * x for x in e(y, p)]) ** 0.5,
    "root_mean_squared_percentage_error":
        lambda y, p: mean([x * x for x in ELEMENT["percentage_error"](y, p)]) ** 0.5,
    "symmetric_bias": lambda y, p: -2 * mean([ratio(a - b, abs(a) + abs(b)) for a, b in zip(y, p)]),
    "symmetric_mean_absolute_percentage_error": lambda y, p: 2 * mean(scaled(y, p)),
    "scaled_symmetric_mean_absolute_percentage_error": lambda y, p: mean(scaled(y, p)),
    "tracking_signal": tracking,
    "continuous_rank_probability_score": lambda y, p: prob(y, p, 2),
    "linear_error_in_probability_space": lambda y, p: prob(y, p, 1),
    "root_mean_squared_log_error":
        lambda y, p: mean([(math.log1p(a) - math.log1p(b)) ** 2 for a, b in zip(y, p)]) ** 0.5,
}
ALIAS = {"ae": "absolute_error", "ape": "absolute_percentage_error", "bias": "mean_error",
         "crps": "continuous_rank_probability_score", "leps": "linear_error_in_probability_space",
         "mae": "mean_absolute_error", "mape": "mean_absolute_percentage_error",
         "mase": "mean_absolute_scaled_error", "mdae": "median_absolute_error",
         "mdape": "median_absolute_percentage_error", "me": "mean_error",
         "mean_absolute_deviation": "mean_absolute_error", "median_absolute_deviation": "median_absolute_error",
         "mpe": "mean_percentage_error", "mse": "mean_squared_error", "residual": "error",
         "rmse": "root_mean_squared_error", "rmsle": "root_mean_squared_log_error",
         "rmspe": "root_mean_squared_percentage_error", "sbias": "symmetric_bias",
         "smape": "symmetric_mean_absolute_percentage_error"}
COMPLETE = {"tracking_signal", "root_mean_squared_log_error", "mean_absolute_scaled_error"}


def vectors(c):
    n = c.choice([0, 1, 1, 2, 3, 5, 8, 21, 60])
    kind = c.choice(["normal", "int", "const", "big", "small", "zeros", "steps", "mixed", "pos"])
    y = np.asarray(gen.values(c, n, kind), dtype=float)
    how = c.choice(["noise", "same", "other", "shift", "opposite", "zero", "partly"])
    if how == "noise":
        p = y + c.rng.normal(0, 1, n) * (np.abs(y).max() if n else 1) * 0.1
    elif how == "same":
        p = y.copy()
    elif how == "other":
        p = np.asarray(gen.values(c, n, c.choice(["normal", "int", "zeros"])), dtype=float)
    elif how == "shift":
        p = np.roll(y, 1)
    elif how == "opposite":
        p = -y
    elif how == "zero":
        p = np.zeros(n)
    else:
        p = np.where(c.rng.rand(n) < 0.5, y, y + 1)
    return n, y, p, kind, how


def dress(c, *xs):
    """The same numbers in one of the accepted containers."""
    form = c.choice(["array", "array", "list", "tuple", "series", "int"])
    out = []
    for x in xs:
        if form == "list":
            out.append([float(v) for v in x])
        elif form == "tuple":
            out.append(tuple(float(v) for v in x))
        elif form == "series":
            out.append(pd.Series(x).values)
        elif form == "int" and len(x) and np.all(x == np.round(x)) and np.all(np.abs(x) < 1e6):
            out.append(x.astype(int))
        else:
            out.append(np.array(x))
    return form, out


def tol(*xs):
    m = max([1e-300] + [float(np.nanmax(np.abs(x))) for x in xs if len(x) and not np.all(np.isnan(x))])
    return m


def plain(c):
    n, y, p, kind, how = vectors(c)
    missing = "none"
    if n >= 2 and c.chance(0.35):
        missing = c.choice(["pred", "true", "both", "allpred"])
        k = np.zeros(n, dtype=bool)
        k[c.rng.permutation(n)[: c.int(1, n - 1)]] = True
        if missing in ("pred", "both"):
            p[k] = np.nan
        if missing in ("true", "both"):
            y[np.roll(k, 1) if missing == "both" else k] = np.nan
        if missing == "allpred":
            p[:] = np.nan
    form, (yy, pp) = dress(c, y, p)
    before = (np.array(yy, dtype=float), np.array(pp, dtype=float))
    c.note(n=n, kind=kind, how=how, form=form, missing=missing, y=list(y[:8]), p=list(p[:8]))
    s = tol(y, p)
    for name, ref in ELEMENT.items():
        got = getattr(M, name)(yy, pp)
        sc = s if "percentage" not in name else 1.0
        c.close(got, ref(list(y), list(p)), name, rtol=1e-9, atol=1e-12 * sc, form=form)
        c.event("element metrics compared", n)
    for name, ref in SCALAR.items():
        if name in COMPLETE and missing != "none":
            continue
        if name == "mean_absolute_error" and n and np.isnan(y - p).all():
            continue
        if name in ("continuous_rank_probability_score", "linear_error_in_probability_space") and \
                missing in ("true", "both"):
            continue
        if name == "root_mean_squared_log_error" and n and min(y.min(), p.min()) < 0:
            continue
        want = ref(list(y), list(p)) if n else nan
        unit = s if name in ("mean_error", "mean_absolute_error", "median_absolute_error",
                             "root_mean_squared_error") else s * s if name == "mean_squared_error" else 1.0
        if name in ("tracking_signal", "mean_absolute_scaled_error") and n:
            # a ratio of two rounded means: only judged away from a vanishing denominator
            d = np.abs(np.diff(y)).mean() if name[0] == "m" and n > 1 else np.abs(y - p).mean()
            if 0 < d < 1e-6 * s or (name[0] == "m" and 0 < d < 1e-7):
                continue
            unit = max(1.0, abs(want)) if not math.isnan(want) else 1.0
        for fn in [getattr(M, name)] + ([M.metric(name)] if not name.startswith("scaled") else []):
            got = fn(yy, pp)
            c.close(float(got), want, name, rtol=1e-9, atol=1e-11 * unit, form=form, missing=missing)
        c.event("scalar metrics compared")
        c.event("metric: " + name)
        c.state(name, kind, how, n, missing, form)
        if n and not math.isnan(want) and not name.startswith("scaled"):
            b = metadata.inspect(name)
            if name.startswith("symmetric_mean") and got > b.upper_bound:
                c.known("KF-smape-bound", "SMAPE exceeds the upper bound its metadata states", got=got)
            else:
                c.check(b.lower_bound - 1e-9 <= got <= b.upper_bound + 1e-9, name + " is within its stated range",
                        got=got, range=(b.lower_bound, b.upper_bound))
    for a, full in ALIAS.items():
        if full in COMPLETE and missing != "none" or full == "mean_absolute_error" and n and np.isnan(y - p).all():
            continue
        with np.errstate(all="ignore"):
            x, w = M.metric(a)(yy, pp), getattr(M, full)(yy, pp)
            z = getattr(M, a)(yy, pp)
            c.check(np.array_equal(x, w, equal_nan=True) and np.array_equal(z, w, equal_nan=True), "alias " + a, got=x, want=w)
    # order of the pairs is irrelevant
    if n > 1 and not np.isnan(y - p).all():
        o = c.rng.permutation(n)
        for name in ("mean_absolute_error", "mean_absolute_percentage_error", "root_mean_squared_error",
                     "symmetric_mean_absolute_percentage_error", "median_absolute_error"):
            c.close(float(getattr(M, name)(y[o], p[o])), float(getattr(M, name)(y, p)), name + " ignores order",
                    rtol=1e-9, atol=1e-12 * s * s)
    c.check(np.array_equal(before[0], np.array(yy, dtype=float), equal_nan=True)
            and np.array_equal(before[1], np.array(pp, dtype=float), equal_nan=True), "arguments are left alone")


def weighted(c):
    n, y, p, kind, how = vectors(c)
    if n == 0:
        n, y, p = 3, np.array([1.0, -2.0, 0.0]), np.array([0.5, 1.0, 3.0])
    w = c.choice([c.rng.rand(n) + 0.01, np.ones(n) * 3, c.rng.randint(1, 9, n).astype(float),
                  np.where(np.arange(n) == c.int(0, n - 1), 1.0, 0.0)])
    form, (yy, pp, ww) = dress(c, y, p, w)
    s, tot = tol(y, p), math.fsum(w)
    c.note(n=n, kind=kind, how=how, w=list(w[:6]))
    for name, ref in ELEMENT.items():
        # weights are normalised to sum to one
        base = e(y, p) if "absolute" not in name else [abs(x) for x in e(y, p)]
        if "percentage" in name:
            d = [abs(a) for a in y] if "absolute" in name else list(y)
            want = [ratio(b * k, a * tot) for b, k, a in zip(base, w, d)]
        else:
            want = [b * k / tot for b, k in zip(base, w)]
        c.close(getattr(M, name)(yy, pp, ww), want, "weighted " + name, rtol=1e-9, atol=1e-12 * s)
    mae = math.fsum(abs(x) * k for x, k in zip(e(y, p), w)) / tot
    mse = math.fsum(x * x * k for x, k in zip(e(y, p), w)) / tot
    c.close(float(M.mean_absolute_error(yy, pp, ww)), mae, "weighted MAE", rtol=1e-9, atol=1e-12 * s)
    c.close(float(M.mean_squared_error(yy, pp, ww)), mse, "weighted MSE", rtol=1e-9, atol=1e-12 * s * s)
    c.close(float(M.root_mean_squared_error(yy, pp, ww)), mse ** 0.5, "weighted RMSE", rtol=1e-9, atol=1e-9 * s)
    if min(y.min(), p.min()) >= 0:
        lg = math.fsum((math.log1p(a) - math.log1p(b)) ** 2 * k for a, b, k in zip(y, p, w)) / tot
        c.close(float(M.rmsle(yy, pp, ww)), lg ** 0.5, "weighted RMSLE", rtol=1e-9, atol=1e-9)
    c.event("weighted metrics compared", 8)
    # several outputs
    k = c.int(1, 4)
    Y = np.array([np.asarray(gen.values(c, n, "normal"), dtype=float) for _ in range(k)]).T.reshape(n, k)
    P = Y + c.rng.normal(0, 1, (n, k))
    raw = [mean([abs(a - b) for a, b in zip(Y[:, j], P[:, j])]) for j in range(k)]
    c.close(M.mean_absolute_error(Y, P, multioutput="raw_values"), raw, "MAE per output", rtol=1e-9, atol=1e-9)
    c.close(float(M.mean_absolute_error(Y, P)), mean(raw), "MAE over outputs", rtol=1e-9, atol=1e-9)
    ow = c.rng.rand(k) + 0.1
    c.close(float(M.mean_absolute_error(Y, P, multioutput=ow)), float(np.dot(raw, ow) / ow.sum()),
            "MAE with output weights", rtol=1e-9, atol=1e-9)
    c.raises((ValueError,), "unknown multioutput", M.mean_absolute_error, Y, P, multioutput="median")
    c.state("weighted", kind, how, n, form, k)


def interval(c):
    n = c.choice([1, 2, 3, 7, 20])
    y = np.asarray(gen.values(c, n, c.choice(["normal", "int", "zeros"])), dtype=float)
    r = c.rng
    lo = y - r.choice([0.0, 1.0, -1.0, 2.5], n) - r.choice([0, r.rand()], n)
    hi = np.maximum(lo, y + r.choice([0.0, 1.0, -1.0, 2.5], n))
    alpha = c.choice([0.05, 0.1, 0.2, 0.5])
    form, (yy, ll, hh) = dress(c, y, lo, hi)
    c.note(n=n, alpha=alpha, y=list(y[:5]), lo=list(lo[:5]), hi=list(hi[:5]))
    inside = [float(a <= v <= b) for v, a, b in zip(y, lo, hi)]
    score = [(b - a) + (2 / alpha * (a - v) if v < a else 0) + (2 / alpha * (v - b) if v > b else 0)
             for v, a, b in zip(y, lo, hi)]
    c.close(float(M.coverage(yy, ll, hh)), mean(inside), "coverage", rtol=1e-12)
    c.close(M.mult_coverage(yy, ll, hh), inside, "coverage per point", rtol=1e-12)
    c.close(float(M.interval_score(yy, ll, hh, alpha)), mean(score), "interval score", rtol=1e-9)
    c.close(M.mult_interval_score(yy, ll, hh, alpha), score, "interval score per point", rtol=1e-9)
    c.close(float(M.interval_score(yy, ll, hh)),
            mean([(b - a) + (10 * (a - v) if v < a else 0) + (10 * (v - b) if v > b else 0)
                  for v, a, b in zip(y, lo, hi)]), "default interval score", rtol=1e-9)
    win = c.int(1, n)
    roll = lambda x: [math.fsum(x[j] for j in range(i - win // 2, i - win // 2 + win) if 0 <= j < n) / win
                      for i in range(n)] if win % 2 else [
        math.fsum(x[j] for j in range(i - win // 2, i + win // 2) if 0 <= j < n) / win for i in range(n)]
    c.close(M.mult_coverage(yy, ll, hh, win), roll(inside), "rolling coverage", rtol=1e-9, atol=1e-12, win=win)
    c.close(M.mult_interval_score(yy, ll, hh, alpha, win), roll(score), "rolling interval score", rtol=1e-9,
            atol=1e-9, win=win)
    # quantile losses
    p = y + r.choice([-1.0, 0.0, 0.5], n)
    for t in [0.0, 0.05, 0.5, 0.51, 0.9, 1.0]:
        want = mean([t * (a - b) if a > b else (t - 1) * (a - b) for a, b in zip(y, p)])
        c.close(float(M.pinball_loss(y, p, t)), want, "pinball loss", rtol=1e-9, atol=1e-12, t=t)
        # for t <= 0.5 forecasts below the truth are the expected side: the other side exceeds
        want_ex = mean([float(a > b) if t > 0.5 else float(a < b) for a, b in zip(y, p)])
        got = float(M.exceed(y, p, t))
        c.close(got, want_ex, "exceed rate", rtol=1e-12, t=t)
        rel = c.choice([0.5, 1.0, 2.0])
        c.close(float(M.frequency_exceeds_relative_threshold(y, p, rel)),
                mean([float(a >= rel * b) for a, b in zip(y, p)]), "relative exceedance", rtol=1e-12)
        c.event("quantile losses compared")
    for bad in (-0.1, 1.5):
        c.raises((ValueError,), "threshold outside [0, 1]", M.pinball_loss, y, p, bad)
    m, h, k = c.int(1, 3), c.int(1, 4), c.int(1, 3)
    Y = r.randint(-3, 4, (m, h)).astype(float)
    T = np.sort(r.choice([0.05, 0.3, 0.5, 0.6, 0.95], k, replace=False))
    P = r.randint(-3, 4, (m, h * k)).astype(float)
    want = [mean([float(Y[i, j] > P[i, q * h + j]) if T[q] > 0.5 else float(Y[i, j] < P[i, q * h + j])
                  for i in range(m) for j in range(h)]) for q in range(k)]
    as_list = lambda a: c.choice([lambda: a, lambda: a.tolist(), lambda: pd.DataFrame(a) if a.ndim == 2 else pd.Series(a)])()
    c.close(M.mult_exceed(as_list(Y), as_list(P), as_list(T)), want, "exceed rates of several quantiles", rtol=1e-12, T=T)
    c.raises((ValueError,), "quantile forecasts of the wrong width", M.mult_exceed, Y, P[:, :-1], T) if h * k > 1 else 0
    c.state("interval", n, alpha, win, form, m, h, k, tuple(T))


def refuse(c):
    n = c.int(1, 6)
    k = n + c.int(1, 3)
    y, p = c.rng.normal(0, 1, n), c.rng.normal(0, 1, k)
    if c.chance(0.5):
        y, p = p, y
    form, (yy, pp) = dress(c, y, p)
    for name in list(ELEMENT) + [s for s in SCALAR]:
        c.raises((ValueError,), "different lengths: " + name, getattr(M, name), np.abs(yy), np.abs(pp))
    for f in (M.coverage, M.interval_score, M.mult_coverage, M.mult_interval_score):
        c.raises((ValueError,), "different lengths", f, yy, pp, pp)
    bad = c.choice(["", "MAE", "mean", "nope", "mae ", "smap"])
    c.raises((ValueError,), "unknown name", M.metric, bad)
    c.raises((ValueError,), "unknown core name", M.core_metric, bad)
    c.raises((ValueError,), "unknown metadata", metadata.inspect, bad)
    for name in ("error", "absolute_error", "ape", "ae"):
        c.raises((ValueError,), "array metrics are not core metrics", M.core_metric, name)
    for name in SCALAR:
        if not name.startswith("scaled"):
            c.check(M.core_metric(name) is M.metric(name) is getattr(M, name), "lookup", name=name)
    c.state("refuse", n, k, form, bad)


SCENARIOS = [("plain", 600, 12000, plain), ("weighted", 300, 5000, weighted), ("interval", 300, 5000, interval),
             ("refuse", 60, 400, refuse)]
NEED = {"element metrics compared": 1000, "scalar metrics compared": 2000, "metric: tracking_signal": 100,
        "metric: root_mean_squared_log_error": 20, "quantile losses compared": 500}
