"""C20: Bayesian online change points against the run-length recursion on plain lists."""
import math

import numpy as np
import pandas as pd
from kats.detectors.bocpd import (BOCPDetector, BOCPDModelType, NormalKnownParameters, PoissonModelParameters,
                                  TrendChangeParameters)
from kats.detectors.bocpd_model import BocpdDetectorModel

import gen
from checks.c13 import series
from core import Skip

PROPERTY = "C20"
RULE = ("random series of 10-60 points (1-3 columns for the normal model) with shifts, counts and trends, priors, hazards, "
        "thresholds, lags; distinct = (model, priors, hazard, lag, size, change points) signature")
ASSUMPTIONS = ["the choice of priors by search needs a package that is not installed and is left out",
               "the trend model's predictive density is sampled; only its bookkeeping is judged, not the density",
               "probabilities within 1e-9 of the threshold are set aside"]
KINDS = BOCPDModelType


def lse(x):
    m = max(x)
    return -math.inf if m == -math.inf else m + math.log(math.fsum(math.exp(a - m) for a in x))


def posterior(v, density, hazard):
    """Row i: the probability of each run length after point i; density(points of the run, x) is logarithmic."""
    rows = [[1.0]]
    joint = [0.0]
    for i in range(1, len(v)):
        pred = [density(v[i - 1 - r:i], v[i]) for r in range(i)]
        both = [a + b for a, b in zip(joint, pred)]
        joint = [lse(both) + math.log(hazard)] + [a + math.log(1 - hazard) for a in both]
        top = lse(joint)
        joint = [a - top for a in joint]
        rows.append([math.exp(a) for a in joint])
    return rows


def normal(mu0, lam0, lam):
    def density(run, x):
        prec = lam0 + len(run) * lam
        mean = (mu0 * lam0 + lam * math.fsum(run)) / prec
        var = 1 / prec + 1 / lam
        return -0.5 * math.log(2 * math.pi * var) - (x - mean) ** 2 / (2 * var)
    return density


def poisson(alpha, beta):
    def density(run, x):
        n, p = alpha + math.fsum(run), (len(run) + beta) / (len(run) + beta + 1)
        return math.lgamma(x + n) - math.lgamma(n) - math.lgamma(x + 1) + n * math.log(p) + x * math.log1p(-p)
    return density


def probabilities(rows, lag, agg):
    n = len(rows)
    if agg:
        # the most certain view of a change at i, at any later time
        return [max((rows[i + r][r] for r in range(n - i) if i + r != r), default=0.0) for i in range(n)]
    return [0.0 if i == 0 or i + lag >= n else rows[i + lag][lag] for i in range(n)]


def shifted(c, n):
    v = c.rng.normal(0, 1, n)
    for _ in range(c.int(0, 3)):
        v[c.int(1, n - 1):] += c.choice([3.0, -4.0, 8.0])
    return v * c.choice([1.0, 1.0, 0.01, 100.0]) + c.choice([0.0, 0.0, 50.0])


def judge(c, d, cps, columns, names, t, hazards, thresholds, lag, agg, kind):
    probs, matrix = d.get_change_prob(), d.get_run_length_matrix()
    c.check(list(probs) == names and list(matrix) == names, "columns answered", got=list(probs), want=names)
    n = len(t)
    found = 0
    for q, (name, (v, density)) in enumerate(zip(names, columns)):
        rows = posterior(v, density, hazards[q]) if density else None
        got = np.asarray(matrix[name])
        c.check(got.shape == (n, n), "size of the run length matrix", got=got.shape)
        c.close(got.sum(axis=1), np.ones(n), "run length posteriors add up to one", rtol=1e-6)
        c.close(got[np.triu_indices(n, 1)], np.zeros(n * (n - 1) // 2), "no run is longer than the data", atol=1e-15)
        if rows is not None:
            for i, row in enumerate(rows):
                c.close(got[i, :i + 1], row, "run length posterior", rtol=1e-5, atol=1e-8, at=i, column=name)
                c.event("run length posteriors")
        else:
            c.close(got[1:, 0], np.full(n - 1, hazards[q]), "probability of a new run", rtol=1e-6)
        want = probabilities(got.tolist(), lag, agg)
        p = np.asarray(probs[name])
        c.close(p, want, "change probabilities", rtol=1e-6, atol=1e-8, column=name)
        if any(abs(x - thresholds[q]) < 1e-9 for x in want):
            raise Skip
        at = [i for i in range(n) if want[i] > thresholds[q]]
        mine = [x for x in cps if x.ts_name == name]
        c.check([pd.Timestamp(x.start_time) for x in mine] == [t[i] for i in at], "change points", column=name,
                got=[x.start_time for x in mine], want=[t[i] for i in at])
        for x, i in zip(mine, at):
            c.check(pd.Timestamp(x.end_time) == t[i] and x.model == kind, "end and model of a change point", got=x)
            c.close(x.confidence, want[i], "confidence", rtol=1e-6, atol=1e-9)
        found += len(at)
        c.event("change probabilities", n)
    c.event("change points", found)
    c.check(len(cps) == found, "every change point belongs to a column", got=len(cps), want=found)
    groups = d.group_changepoints_by_timeseries(cps)
    c.check(list(groups) == names and sum(map(len, groups.values())) == found
            and all(x.ts_name == k for k in groups for x in groups[k]), "grouped by column", got=groups)
    return found


def common(c, n):
    hazard = c.choice([0.01, 0.01, 0.1, 0.3, 0.001])
    return dict(lag=c.int(1, min(12, n - 2)), changepoint_prior=hazard, threshold=c.choice([0.5, 0.5, 0.2, 0.8, 0.05]),
                agg_cp=c.chance(0.5), debug=c.chance(0.2))


def prior_mean(c, d, names, columns, hazards):
    """The densities to judge with; the detector is known to take zero for the prior mean."""
    zero = [(v, normal(0.0, *par[1:])) for v, par in columns]
    right = [(v, normal(*par)) for v, par in columns]
    matrix = d.get_run_length_matrix()

    def follows(cols):
        return all(np.allclose(np.asarray(matrix[name])[i, :i + 1], row, rtol=1e-5, atol=1e-8)
                   for name, (v, f), h in zip(names, cols, hazards) for i, row in enumerate(posterior(v, f, h)))
    if set(matrix) == set(names) and not follows(right) and follows(zero):
        c.known("KF-bocpd-prior-mean", "the normal model of BOCPD takes zero for the prior mean")
        return zero
    return right


def level(c):
    k = c.choice([1, 1, 1, 2, 3])
    n = c.int(12, 55)
    v = np.stack([shifted(c, n) for _ in range(k)], axis=1)
    names = gen.names(c, k)
    ts = series(gen.regular(c, n) if c.chance(0.7) else gen.irregular(c, n), v, names, c.choice(gen.TIME_NAMES))
    t = pd.DatetimeIndex(ts.time)
    snap = gen.Frozen(ts)
    kw = common(c, n)
    hazards, thresholds = [kw["changepoint_prior"]] * k, [kw["threshold"]] * k
    if k > 1 and c.chance(0.4):
        hazards = [c.choice([0.01, 0.2, 0.05]) for _ in range(k)]
        thresholds = [c.choice([0.5, 0.1, 0.9]) for _ in range(k)]
        kw.update(changepoint_prior=np.array(hazards), threshold=np.array(thresholds))
        c.event("priors per column")
    empirical = c.chance(0.6)
    columns = []
    if empirical:
        mult = c.choice([1.0, 1.0, 2.0, 5.0])
        par = NormalKnownParameters(known_prec_multiplier=mult)
        for q in range(k):
            x = v[:, q].tolist()
            var = lambda z: math.fsum((a - math.fsum(z) / len(z)) ** 2 for a in z) / (len(z) - 1)
            roll = [var(x[i - 9:i + 1]) for i in range(9, n)]
            columns.append((x, (math.fsum(x) / n, 1 / var(x), mult * len(roll) / math.fsum(roll))))
        if mult == 1.0 and c.chance(0.5):
            par = None
    else:
        many = k > 1 and c.chance(0.5)
        draw = lambda: [(float(v[:, q].mean() + c.rng.normal(0, 1)), float(c.choice([0.1, 1.0, 5.0]) / v.var()),
                         float(c.choice([0.5, 1.0, 10.0]) / v.var())) for q in range(k)]
        pr = draw()
        if many:
            par = NormalKnownParameters(empirical=False, mean_prior=np.array([x[0] for x in pr]), mean_prec_prior=np.array([x[1] for x in pr]),
                                        known_prec=np.array([x[2] for x in pr]))
        else:
            pr = [pr[0]] * k
            par = NormalKnownParameters(empirical=False, mean_prior=pr[0][0], mean_prec_prior=pr[0][1], known_prec=pr[0][2])
        columns = [(v[:, q].tolist(), pr[q]) for q in range(k)]
        c.event("priors given")
    c.note(n=n, k=k, empirical=empirical, kw={a: str(b) for a, b in kw.items()}, names=names)
    d = BOCPDetector(ts)
    if c.chance(0.2):
        d.detector(choose_priors=False, changepoint_prior=0.4, agg_cp=True)
        c.event("detectors used again")
    cps = d.detector(model=KINDS.NORMAL_KNOWN_MODEL, model_parameters=par, choose_priors=False, **kw)
    columns = prior_mean(c, d, names, columns, hazards)
    found = judge(c, d, cps, columns, names, t, hazards, thresholds, kw["lag"], kw["agg_cp"], KINDS.NORMAL_KNOWN_MODEL)
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.state("level", n, k, empirical, str(kw), found)


def counts(c):
    n = c.int(8, 40)
    v = c.rng.poisson(c.choice([0.3, 2.0, 10.0]), n).astype(float)
    if c.chance(0.7):
        i = c.int(1, n - 1)
        v[i:] = c.rng.poisson(c.choice([0.1, 6.0, 30.0]), n - i)
    if c.chance(0.3):
        v = v.astype(int)
    names = gen.names(c, 1)
    ts = series(gen.regular(c, n), v.reshape(-1, 1), names, c.choice(gen.TIME_NAMES))
    snap = gen.Frozen(ts)
    kw = common(c, n)
    a, b = (1.0, 0.05) if c.chance(0.4) else (c.choice([0.5, 2.0, 10.0]), c.choice([0.05, 1.0, 4.0]))
    par = PoissonModelParameters(alpha_prior=a, beta_prior=b)
    c.note(n=n, alpha=a, beta=b, kw=kw)
    d = BOCPDetector(ts)
    cps = d.detector(model=KINDS.POISSON_PROCESS_MODEL, model_parameters=par if (a, b) != (1.0, 0.05) else None, choose_priors=False, **kw)
    found = judge(c, d, cps, [([float(x) for x in v], poisson(a, b))], names, pd.DatetimeIndex(ts.time),
                  [kw["changepoint_prior"]], [kw["threshold"]], kw["lag"], kw["agg_cp"], KINDS.POISSON_PROCESS_MODEL)
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.event("count series")
    c.state("counts", n, a, b, str(kw), found)


def slope(c):
    n = c.int(12, 24)
    i = np.arange(n)
    v = c.rng.normal(0, 1, n) + c.choice([0, 2.0]) * i + c.choice([0, 5.0, -8.0]) * np.maximum(i - c.int(3, n - 2), 0)
    return n, v


def trend(c):
    n, v = slope(c)
    names = gen.names(c, 1)
    ts = series(gen.regular(c, n), v.reshape(-1, 1), names, c.choice(gen.TIME_NAMES))
    snap = gen.Frozen(ts)
    kw = common(c, n)
    par = TrendChangeParameters(num_likelihood_samples=c.choice([20, 50]), readjust_sigma_prior=c.chance(0.3),
                                mu_prior=c.choice([None, None, np.array([0.0, 1.0])]))
    c.note(n=n, kw=kw, par=par)
    answers = []
    for seed in (3, 77):
        np.random.seed(seed)
        d = BOCPDetector(ts)
        cps = d.detector(model=KINDS.TREND_CHANGE_MODEL, model_parameters=par, choose_priors=False, **kw)
        found = judge(c, d, cps, [(v.tolist(), None)], names, pd.DatetimeIndex(ts.time), [kw["changepoint_prior"]],
                      [kw["threshold"]], kw["lag"], kw["agg_cp"], KINDS.TREND_CHANGE_MODEL)
        answers.append(d.get_change_prob()[names[0]])
    c.close(answers[0], answers[1], "the same answer in every run", rtol=0, atol=0)
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.event("trend series")
    c.state("trend", n, str(kw), found)


def model(c):
    n, v = slope(c)
    h = c.choice([0, c.int(1, n - 1), n // 2])
    t = gen.regular(c, n)
    whole = series(t, v.reshape(-1, 1), ["value"], "time")
    data, hist = whole[h:], (whole[:h] if h else None)
    fd, fh = gen.Frozen(data), gen.Frozen(hist) if h else None
    m = BocpdDetectorModel(slow_drift=True, threshold=c.choice([None, 0.2, 0.9]))
    if c.chance(0.5):
        m = BocpdDetectorModel(serialized_model=m.serialize())
        c.event("models restored")
    c.note(n=n, history=h, threshold=m.threshold)
    r = m.fit_predict(data, hist)
    d = BOCPDetector(whole)
    d.detector(model=KINDS.TREND_CHANGE_MODEL, choose_priors=False, agg_cp=True)
    want = d.get_change_prob()["value"][h:]
    c.check(list(pd.DatetimeIndex(r.scores.time)) == list(t[h:]), "times", got=len(r.scores), want=n - h)
    c.close(r.scores.value.values, want, "scores", rtol=1e-9)
    c.close(r.predicted_ts.value.values, v[h:], "predicted values are the data")
    c.check(not np.any(r.anomaly_magnitude_ts.value.values) and not np.any(r.stat_sig_ts.value.values), "other answers are zero")
    c.check(fd.unchanged(data), "the data are left as they were")
    c.check(fh is None or fh.unchanged(hist), "the history is left as it was")
    c.event("model answers")
    c.state("model", n, h, m.threshold)


def refused(c):
    n = c.int(11, 30)
    t = gen.regular(c, n)
    one, two = series(t, c.rng.poisson(3, (n, 1)), ["v"]), series(t, c.rng.poisson(3, (n, 2)), ["a", "b"])
    kind = c.choice(["columns", "columns poisson", "first", "matrix first", "parameters", "short", "priors missing", "predict"])
    if kind == "columns":
        c.raises((ValueError,), kind, BOCPDetector(two).detector, model=KINDS.TREND_CHANGE_MODEL, choose_priors=False)
    elif kind == "columns poisson":
        c.raises((ValueError,), kind, BOCPDetector(two).detector, model=KINDS.POISSON_PROCESS_MODEL, choose_priors=False)
    elif kind == "first":
        c.raises((ValueError,), kind, BOCPDetector(one).get_change_prob)
    elif kind == "matrix first":
        c.raises((ValueError,), kind, BOCPDetector(one).get_run_length_matrix)
    elif kind == "parameters":
        c.raises((AssertionError,), kind, BOCPDetector(one).detector, model=KINDS.NORMAL_KNOWN_MODEL,
                 model_parameters=PoissonModelParameters(), choose_priors=False)
    elif kind == "short":
        k = c.int(3, 9)
        c.raises((ValueError,), kind, BOCPDetector(series(t[:k], c.rng.rand(k, 1), ["v"])).detector, lag=1, choose_priors=False)
    elif kind == "priors missing":
        miss = {"mean_prior": 0.0, "mean_prec_prior": 1.0, "known_prec": 1.0}
        miss.pop(c.choice(list(miss)))
        c.raises((ValueError,), kind, BOCPDetector(one).detector, model_parameters=NormalKnownParameters(empirical=False, **miss),
                 choose_priors=False)
    else:
        c.raises((ValueError,), kind, BocpdDetectorModel(slow_drift=True).predict, one)
    c.state(kind)


SCENARIOS = [("level", 90, 3000, level), ("counts", 70, 2500, counts), ("trend", 10, 250, trend), ("model", 16, 300, model),
             ("refused", 60, 500, refused)]
NEED = {"run length posteriors": 2000, "change probabilities": 2000, "change points": 100, "priors given": 15, "priors per column": 5,
        "trend series": 5, "model answers": 8, "models restored": 3, "refusals observed": 40}
