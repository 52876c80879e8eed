"""C21: interval detectors: AB tests over time."""
import json
import math
from fractions import Fraction

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
from kats.detectors import interval_detector as D
from kats.detectors.interval_detector import ABIntervalType, TestStatistic, TestType
from scipy import stats

from core import Skip

PROPERTY = "C21"
RULE = ("random two-sample (real, proportion, count, arrival time) and one-sample (proportion) experiments with "
        "effects switched on and off, every test type, statistic, significance level and duration, with and without "
        "history; distinct = (detector, test, statistic, duration, length, runs) signature")
ASSUMPTIONS = ["statistics within rounding of the critical value are set aside",
               "significance levels below 0.4; several tests are independent (the default)",
               "the p-values and two-sided limits of the one-sample test are not judged: only its decisions and "
               "one-sided limits are"]

TWO = {"real": D.TwoSampleRealValuedIntervalDetectorModel,
       "proportion": D.TwoSampleProportionIntervalDetectorModel,
       "count": D.TwoSampleCountIntervalDetectorModel,
       "arrival": D.TwoSampleArrivalTimeIntervalDetectorModel}
ONE = D.OneSampleProportionIntervalDetectorModel
LOWER, UPPER, BOTH = TestType.ONE_SIDED_LOWER, TestType.ONE_SIDED_UPPER, TestType.TWO_SIDED


def times(c, n):
    start = pd.Timestamp(c.choice(["2020-03-01", "2021-12-31 23:00", "2019-06-15 07:30"]))
    if c.chance(0.6):
        return pd.Series(pd.date_range(start, periods=n, freq=c.choice(["H", "D", "30min", "10min", "W"])))
    gaps = np.cumsum(c.rng.randint(1, 200, n))
    return pd.Series(start + pd.to_timedelta(gaps, unit="m"))


def experiment(c, kind, n, relative=False):
    on = np.zeros(n)
    for _ in range(c.int(0, 4)):
        a = c.int(0, n - 1)
        on[a:a + c.int(1, max(1, n // 3))] = c.choice([1.0, 1.0, -1.0, 3.0])
    cnt = lambda: c.rng.randint(20, c.choice([50, 500, 5000]), n)
    na, nb = cnt(), cnt()
    if kind == "one":
        p = c.rng.uniform(0.05, 0.95)
        lift = c.choice([0.0, 0.05, 0.2])
        q = np.clip(p + on * lift, 0.001, 0.999)
        k = c.rng.binomial(na, q)
        eff = np.full(n, p) if c.chance(0.5) else np.clip(p + c.rng.normal(0, 0.03, n), 0.02, 0.98)
        return pd.DataFrame({"value": k / na, "variance": c.rng.uniform(0.1, 2, n), "sample_count": na, "effect_size": eff})
    if kind == "real":
        s = c.choice([1.0, 10.0])
        base = c.choice([5.0, 100.0, 0.5]) if relative or c.chance(0.5) else c.choice([-3.0, 0.0])
        va, vb = c.rng.uniform(0.1, 2, n) * s, c.rng.uniform(0.1, 2, n) * s
        a = base + c.rng.normal(0, 1, n) * np.sqrt(va / na)
        b = base + c.rng.normal(0, 1, n) * np.sqrt(vb / nb) + on * c.choice([0.0, 0.1, 1.0]) * math.sqrt(s)
        if relative:
            a, b = np.abs(a) + 1e-3, np.abs(b) + 1e-3
    elif kind == "proportion":
        p = c.rng.uniform(0.05, 0.9)
        a = np.clip(c.rng.binomial(na, p) / na, 1 / na, 1 - 1 / na)
        b = np.clip(c.rng.binomial(nb, np.clip(p + on * c.choice([0.0, 0.05, 0.2]), 0.02, 0.98)) / nb, 1 / nb, 1 - 1 / nb)
        va, vb = c.rng.uniform(0.1, 2, n), c.rng.uniform(0.1, 2, n)
    elif kind == "count":
        lam = c.choice([15, 60, 400])
        a = 1 + c.rng.poisson(lam, n)
        b = 1 + c.rng.poisson(lam * np.clip(1 + on * c.choice([0.0, 0.05, 0.2]), 0.2, 9), n)
        va, vb = c.rng.uniform(0.1, 2, n), c.rng.uniform(0.1, 2, n)
    else:
        lam = c.choice([0.5, 20.0])
        a = c.rng.gamma(na, lam / na)
        b = c.rng.gamma(nb, lam / nb) * np.clip(1 + on * c.choice([0.0, 0.05, 0.2]), 0.2, 9)
        va, vb = c.rng.uniform(0.1, 2, n), c.rng.uniform(0.1, 2, n)
    eff = np.zeros(n) if c.chance(0.5) else c.rng.uniform(-0.03, 0.1, n)
    return pd.DataFrame({"value_a": a, "value_b": b, "variance_a": va, "variance_b": vb,
                         "sample_count_a": na, "sample_count_b": nb, "effect_size": eff})


def frame(t, df, rng):
    cols = list(df.columns)
    rng.shuffle(cols)
    d = df[cols].copy()
    d.insert(0, "time", list(t))
    return TimeSeriesData(d)


def reference(df, kind, relative):
    """(statistic, difference, standard error) of every row."""
    out = []
    for r in df.itertuples():
        if kind == "real":
            va, vb = r.variance_a / r.sample_count_a, r.variance_b / r.sample_count_b
        elif kind == "proportion":
            va, vb = r.value_a * (1 - r.value_a) / r.sample_count_a, r.value_b * (1 - r.value_b) / r.sample_count_b
        elif kind == "count":
            va, vb = r.value_a / r.sample_count_a, r.value_b / r.sample_count_b
        else:
            va, vb = r.value_a ** 2 / r.sample_count_a, r.value_b ** 2 / r.sample_count_b
        if relative:
            d = math.log(r.value_b / r.value_a)
            se = math.sqrt(va / r.value_a ** 2 + vb / r.value_b ** 2)
            z = (d - math.log(1 + r.effect_size)) / se
        else:
            d = r.value_b - r.value_a
            se = math.sqrt(va + vb)
            z = (d - r.effect_size) / se
        out.append((z, d, se))
    return np.array(out).T


def run_probability(p, n, m):
    """P(m rejections in a row among n independent tests with probability p each)."""
    state = [1.0] + [0.0] * (m - 1)
    hit = 0.0
    for _ in range(n):
        hit += state[-1] * p
        state = [(1 - p) * sum(state)] + [x * p for x in state[:-1]]
    return hit


def runs(mask):
    out, start = [], None
    for i, x in enumerate(list(mask) + [False]):
        if x and start is None:
            start = i
        if not x and start is not None:
            out.append((start, i - 1))
            start = None
    return out


def levels(c, det, alpha, duration, n, rtol):
    """The significance level of the single tests must be the documented correction."""
    got = det.corrected_alpha
    if duration is None:
        m = det.duration
        c.check(m is not None and 1 <= m <= n, "no duration is assigned", duration=m)
        p = run_probability(alpha, n, m)
        c.close(got, p, "the corrected significance level is not that of a run of the assigned duration", rtol=1e-6, alpha=alpha, n=n, m=m)
        c.check(p <= alpha * (1 + rtol) * (1 + 1e-9), "the assigned duration does not bound the type I error", p=p, alpha=alpha, m=m)
        if m > 1:
            q = run_probability(alpha, n, m - 1)
            c.check(q > alpha * (1 + rtol) * (1 - 1e-9), "the assigned duration is not the smallest", p=q, alpha=alpha, m=m)
        c.event("durations assigned")
    else:
        m = duration
        c.check(det.duration == duration, "the given duration is not kept", got=det.duration, want=duration)
        p = run_probability(got, n, m)
        c.check(abs(p - alpha) <= alpha * rtol * (1 + 1e-6) + 1e-12,
                "the corrected significance level misses the overall one", overall=p, alpha=alpha, m=m, n=n, corrected=got, rtol=rtol)
        c.event("levels corrected")
    return m


def verdicts(c, det, resp, mask, m, t, pad, unit, masked, stat, type_, crit):
    n = len(mask)
    rej = [(i.start_idx, i.end_idx) for i in det.reject_intervals]
    keep = [(i.start_idx, i.end_idx) for i in det.fail_to_reject_intervals]
    c.check(rej == runs(mask), "the rejection intervals are not the runs of significant tests", got=rej, want=runs(mask))
    c.check(keep == runs(~mask), "the other intervals are not the runs of tests that are not significant", got=keep, want=runs(~mask))
    long = [r for r in rej if r[1] - r[0] + 1 >= m]
    c.check([(i.start_idx, i.end_idx) for i in det.anomaly_intervals] == long, "the anomaly intervals are not the rejection intervals of the duration",
            got=[(i.start_idx, i.end_idx) for i in det.anomaly_intervals], want=long, duration=m)
    c.check([(i.start_idx, i.end_idx) for i in det.caution_intervals] == [r for r in rej if r not in long],
            "the caution intervals are not the shorter rejection intervals")
    w = np.timedelta64(pad, unit)
    for i in det.reject_intervals + det.fail_to_reject_intervals:
        a, b = i.start_idx, i.end_idx
        c.check(i.start == t[a] - w and i.end == t[b] + w, "an interval does not span the times of its tests",
                got=(i.start, i.end), want=(t[a] - w, t[b] + w))
        c.check(list(i.indices) == list(range(a, b + 1)), "the indices of an interval are not those between its ends")
    want = np.zeros(n, bool)
    for a, b in long:
        want[a:b + 1] = True
    got = np.asarray(resp.predicted_ts.value, float)
    c.check(len(got) == n and (got == want).all(), "the predictions are not the rejection intervals of the duration or longer",
            got=got.tolist(), want=want.astype(int).tolist(), duration=m)
    c.event("intervals", len(rej) + len(keep))
    c.event("long rejection intervals", len(long))
    c.event("short rejection intervals", len(rej) - len(long))


def decide(stat, crit, type_, c):
    lo, hi = crit
    near = False
    if lo is not None:
        near |= bool((np.abs(stat - lo) < 1e-9 * (1 + np.abs(stat))).any())
    if hi is not None:
        near |= bool((np.abs(stat - hi) < 1e-9 * (1 + np.abs(stat))).any())
    if near:
        raise Skip
    mask = np.zeros(len(stat), bool)
    if lo is not None:
        mask |= stat <= lo
    if hi is not None:
        mask |= stat >= hi
    return mask


def same_response(a, b):
    for f in ("scores", "predicted_ts", "stat_sig_ts", "anomaly_magnitude_ts"):
        x, y = getattr(a, f), getattr(b, f)
        if list(x.time) != list(y.time) or not np.allclose(np.asarray(x.value, float), np.asarray(y.value, float), rtol=1e-9, atol=1e-12, equal_nan=True):
            return f
    for s in ("upper", "lower"):
        x, y = getattr(a.confidence_band, s), getattr(b.confidence_band, s)
        if list(x.time) != list(y.time) or not np.allclose(np.asarray(x.value, float), np.asarray(y.value, float), rtol=1e-9, atol=1e-12, equal_nan=True):
            return s
    return None


def setup(c, kind):
    n = c.choice([c.int(8, 40), c.int(40, 120), c.int(3, 10)])
    alpha = float(c.choice([0.05, 0.01, 0.1, 0.3, 0.001]))
    duration = c.choice([None, None, 1, 2, c.int(1, min(n, 8)), c.int(1, min(n, 8)), n if n < 15 else 3])
    rtol = float(c.choice([0.1, 0.1, 0.01, 0.5]))
    type_ = c.choice([LOWER, UPPER, BOTH])
    relative = kind != "one" and c.chance(0.4)
    t = times(c, n)
    df = experiment(c, kind, n, relative)
    h = c.int(1, n - 1) if c.chance(0.3) else 0
    args = {"alpha": alpha, "duration": duration, "test_type": type_}
    if kind != "one":
        args["test_statistic"] = TestStatistic.RELATIVE_DIFFERENCE if relative else TestStatistic.ABSOLUTE_DIFFERENCE
    c.note(kind=kind, n=n, history=h, relative=relative, alpha=alpha, duration=duration, test=type_.value, r_tol=rtol)
    return n, alpha, duration, rtol, type_, relative, t, df, h, args


def again(c, make, det, t, df, h, resp, kw, snap):
    data, hist, before, hbefore = snap
    c.check(data.to_dataframe().equals(before), "the caller's data change", now=data.to_dataframe().head(3).to_dict(), then=before.head(3).to_dict())
    if hist is not None:
        c.check(hist.to_dataframe().equals(hbefore), "the caller's history changes", n=len(hist), want=len(hbefore))
    x = same_response(resp, make().fit_predict(frame(t, df, c.rng), **kw))
    c.check(x is None, "the answer depends on how the data are split into history and data, or on the order of the columns", part=x, history=h)
    x = same_response(resp, make().predict(data, hist, **kw))
    c.check(x is None, "the same data get another answer the second time", part=x)
    c.event("repeated runs", 2)


def response_times(c, resp, t):
    parts = [resp.scores, resp.predicted_ts, resp.stat_sig_ts, resp.anomaly_magnitude_ts, resp.confidence_band.upper, resp.confidence_band.lower]
    c.check(all(list(x.time) == list(t) for x in parts), "the response does not cover the times of the data")
    c.check((np.asarray(resp.anomaly_magnitude_ts.value, float) == 0).all(), "the magnitude is not zero")


def call(c, det, t, df, h, kw):
    if h:
        hist, data = frame(t[:h], df.iloc[:h], c.rng), None
        cols = [x for x in hist.to_dataframe().columns if x != "time"]
        d = df.iloc[h:][cols].reset_index(drop=True)
        d.insert(0, "time", list(t[h:]))
        data = TimeSeriesData(d)
    else:
        hist, data = None, frame(t, df, c.rng)
    before, hbefore = data.to_dataframe().copy(), hist.to_dataframe().copy() if h else None
    resp = det.fit_predict(data, hist, **kw)
    return resp, (data, hist, before, hbefore)


def two(c):
    kind = c.choice(sorted(TWO))
    n, alpha, duration, rtol, type_, relative, t, df, h, args = setup(c, kind)
    if relative and (df.effect_size <= -0.9).any():
        raise Skip
    masked = c.chance(0.25)
    pad, unit = c.choice([(30, "m"), (1, "h"), (2, "D"), (5, "s")])
    kw = {"interval_padding": pad, "interval_units": unit, "r_tol": rtol, "mask_scores": masked}

    def make():
        d = TWO[kind](**args)
        if use_bytes:
            d = TWO[kind](serialized_model=d.serialize())
        return d

    use_bytes = c.chance(0.4)
    det = make()
    for k, v in args.items():
        c.check(getattr(det, k) == v, "a parameter is lost", name=k, got=getattr(det, k), want=v, restored=use_bytes)
    resp, snap = call(c, det, t, df, h, kw)
    m = levels(c, det, alpha, duration, n, rtol)
    q = det.corrected_alpha
    z, d, se = reference(df, kind, relative)
    crit = (stats.norm.ppf(q) if type_ == LOWER else stats.norm.ppf(q / 2) if type_ == BOTH else None,
            stats.norm.isf(q) if type_ == UPPER else stats.norm.isf(q / 2) if type_ == BOTH else None)
    mask = decide(z, crit, type_, c)
    response_times(c, resp, t)
    if masked:
        got = np.asarray(resp.scores.value, float)
        c.check((got == mask).all(), "the masked scores are not the decisions", got=got.tolist(), want=mask.astype(int).tolist())
        c.event("masked runs")
    else:
        c.close(resp.scores.value, z, "the statistic is not the documented one", rtol=1e-7, atol=1e-9)
    p = {LOWER: stats.norm.cdf(z), UPPER: stats.norm.sf(z), BOTH: np.minimum(stats.norm.cdf(z), stats.norm.sf(z))}[type_]
    c.close(resp.stat_sig_ts.value, p, "the significance is not that of the statistic", rtol=1e-6, atol=1e-12)
    half = (crit[1] if crit[1] is not None else -crit[0]) * se
    back = np.exp if relative else (lambda x: x)
    up = np.full(n, np.inf) if type_ == UPPER else back(d + half)
    low = np.full(n, -np.inf) if type_ == LOWER else back(d - half)
    c.close(resp.confidence_band.upper.value, up, "the upper limit is not that of the confidence interval", rtol=1e-7, atol=1e-9)
    c.close(resp.confidence_band.lower.value, low, "the lower limit is not that of the confidence interval", rtol=1e-7, atol=1e-9)
    hyp = 1 + df.effect_size.values if relative else df.effect_size.values
    lo, hi = np.asarray(resp.confidence_band.lower.value, float), np.asarray(resp.confidence_band.upper.value, float)
    out = (hyp <= lo) | (hyp >= hi)
    edge = np.minimum(np.abs(hyp - lo), np.abs(hyp - hi)) < 1e-9 * (1 + np.abs(hyp))
    c.check(((out == mask) | edge).all(), "a test rejects exactly when the limits exclude the tested effect: not here",
            rows=np.flatnonzero((out != mask) & ~edge).tolist())
    verdicts(c, det, resp, mask, m, t, pad, unit, masked, z, type_, crit)
    again(c, make, det, t, df, h, resp, kw, snap)
    c.event("tests decided", n)
    c.event("tests significant", int(mask.sum()))
    if h:
        c.event("runs with history")
    c.state(kind, type_.value, relative, duration, n, len(runs(mask)))


def one(c):
    n, alpha, duration, rtol, type_, _, t, df, h, args = setup(c, "one")
    masked = c.chance(0.25)
    kw = {"r_tol": rtol, "mask_scores": masked}
    use_bytes = c.chance(0.4)

    def make():
        d = ONE(**args)
        return ONE(serialized_model=d.serialize()) if use_bytes else d

    det = make()
    for k, v in args.items():
        c.check(getattr(det, k) == v, "a parameter is lost", name=k, got=getattr(det, k), want=v, restored=use_bytes)
    resp, snap = call(c, det, t, df, h, kw)
    m = levels(c, det, alpha, duration, n, rtol)
    q = det.corrected_alpha
    mask = np.zeros(n, bool)
    for i, r in enumerate(df.itertuples()):
        cdf = np.cumsum(stats.binom.pmf(np.arange(r.sample_count + 1), r.sample_count, r.effect_size))
        ok = True
        for tail, level in ((LOWER, q), (UPPER, 1 - q)) if type_ != BOTH else ((LOWER, q / 2), (UPPER, 1 - q / 2)):
            if type_ not in (BOTH, tail):
                continue
            if np.abs(cdf - level).min() < 1e-11:
                raise Skip
            k = int(np.argmax(cdf >= level))
            got = round(r.value * r.sample_count)
            if tail == LOWER and got <= k or tail == UPPER and got >= k:
                ok = False
        mask[i] = not ok
    # the decision compares value with k / n: ties are exact for counts divided by the size
    response_times(c, resp, t)
    if masked:
        got = np.asarray(resp.scores.value, float)
        c.check((got == mask).all(), "the masked scores are not the decisions", got=got.tolist(), want=mask.astype(int).tolist())
    else:
        c.close(resp.scores.value, df.value.values, "the statistic is not the proportion", rtol=1e-12)
    lo, hi = np.asarray(resp.confidence_band.lower.value, float), np.asarray(resp.confidence_band.upper.value, float)
    for i, r in enumerate(df.itertuples()):
        k = round(r.value * r.sample_count)
        if type_ == UPPER and 0 < k:
            c.close(stats.binom.sf(k - 1, r.sample_count, lo[i]), q, "the lower limit is not the Clopper-Pearson one", rtol=1e-5, atol=1e-9)
            c.check(hi[i] == 1, "the upper limit of the test for increases is not 1")
        if type_ == LOWER and k < r.sample_count:
            c.close(stats.binom.cdf(k, r.sample_count, hi[i]), q, "the upper limit is not the Clopper-Pearson one", rtol=1e-5, atol=1e-9)
            c.check(lo[i] == 0, "the lower limit of the test for decreases is not 0")
    verdicts(c, det, resp, mask, m, t, 30, "m", masked, df.value.values, type_, None)
    again(c, make, det, t, df, h, resp, kw, snap)
    c.event("one-sample tests decided", n)
    c.event("one-sample tests significant", int(mask.sum()))
    c.state("one", type_.value, duration, n, len(runs(mask)))


def reuse(c):
    """One detector, several data sets: each answer is that of a fresh detector."""
    kind = c.choice(sorted(TWO) + ["one"])
    n, alpha, duration, rtol, type_, relative, t, df, h, args = setup(c, kind)
    if duration is None:
        args["duration"] = duration = c.int(1, min(n, 4))
    if n < 4:
        raise Skip
    cls = ONE if kind == "one" else TWO[kind]
    det = cls(**args)
    n2 = 0
    for i in range(c.int(2, 4)):
        n2 = n2 if n2 and c.chance(0.5) else c.int(max(4, duration), 60)
        if i and c.chance(0.6):   # the settings of a detector may be changed between its runs
            what = c.choice(["alpha", "alpha", "duration", "test_type"])
            args[what] = {"alpha": float(c.choice([0.05, 0.01, 0.1, 0.3, 0.001])), "duration": c.int(1, min(n, 4)),
                          "test_type": c.choice([LOWER, UPPER, BOTH])}[what]
            setattr(det, what, args[what])
            c.event("settings changed between runs")
        t2, df2 = times(c, n2), experiment(c, kind, n2, relative)
        kw = {"r_tol": rtol, "consolidate_into_intervals": c.chance(0.6)}
        want = cls(**args).fit_predict(frame(t2, df2, c.rng), **kw)
        got = det.fit_predict(frame(t2, df2, c.rng), **kw)
        x = same_response(got, want)
        c.check(x is None, "a detector used before answers differently from a fresh one", part=x, turn=i, **kw)
        if not kw["consolidate_into_intervals"]:
            c.check((np.asarray(got.predicted_ts.value, float) == 0).all(), "predictions are made although none are asked for", turn=i)
        c.event("reused runs")
    c.state("reuse", kind, type_.value, relative, duration)


def refused(c):
    kind = c.choice(sorted(TWO) + ["one"])
    cls = ONE if kind == "one" else TWO[kind]
    n = c.int(5, 20)
    df = experiment(c, kind, n, True)
    t = times(c, n)
    counts = [x for x in df.columns if x.startswith("sample_count")]
    var = [x for x in df.columns if x.startswith("variance")]
    val = [x for x in df.columns if x.startswith("value")]
    i = c.int(0, n - 1)
    what = c.choice(["missing", "nan", "count zero", "count negative", "count float", "variance", "range", "alpha", "duration", "run too long"])
    c.note(kind=kind, what=what, n=n, row=i)
    args = {"duration": 1}
    if what == "missing":
        df = df.drop(columns=[c.choice(list(df.columns))])
    elif what == "nan":
        df.loc[i, c.choice([x for x in df.columns if x not in counts])] = np.nan
    elif what == "count zero":
        df.loc[i, c.choice(counts)] = 0
    elif what == "count negative":
        df.loc[i, c.choice(counts)] = -3
    elif what == "count float":
        x = c.choice(counts)
        df[x] = df[x] + 0.5
    elif what == "variance":
        df.loc[i, c.choice(var)] = -0.25
    elif what == "range":
        x = c.choice(val)
        if kind in ("proportion", "one"):
            df.loc[i, x] = c.choice([-0.1, 1.2])
        elif kind == "count":
            df[x] = df[x] + 0.5
        elif kind == "arrival":
            df.loc[i, x] = c.choice([0.0, -1.0])
        else:
            raise Skip
    elif what == "alpha":
        a = c.choice([-0.01, 1.5, None])
        c.raises(ValueError, "a significance level outside 0..1 is taken", lambda: cls(alpha=a))
        return
    elif what == "duration":
        m = c.choice([0, -2])
        c.raises(ValueError, "a duration below one is taken", lambda: cls(duration=m))
        return
    else:
        args["duration"] = n + c.int(1, 5)
    det = cls(**args)
    c.raises(ValueError, "data outside the documented schema are taken", det.fit_predict, frame(t, df, c.rng))
    c.state("refused", kind, what)


SCENARIOS = [("two", 140, 1200, two), ("one", 60, 500, one), ("reuse", 40, 400, reuse), ("refused", 60, 300, refused)]
NEED = {"tests decided": 2000, "tests significant": 150, "long rejection intervals": 30, "short rejection intervals": 30, "masked runs": 8,
        "durations assigned": 20, "levels corrected": 40, "runs with history": 12, "one-sample tests decided": 700,
        "one-sample tests significant": 30, "reused runs": 25, "settings changed between runs": 10, "refusals observed": 35}
