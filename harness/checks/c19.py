"""C19: Mann-Kendall trends, seasonality by autocorrelation and spectrum, unusual subsequences by time warping."""
import datetime
import math

import numpy as np
import pandas as pd
from kats.consts import DataError, InternalError, ParameterError
from kats.detectors.dtwcpd import DTWCPDDetector, DTWTimeSeriesTooSmallException
from kats.detectors.seasonality import ACFDetector, FFTDetector
from kats.detectors.trend_mk import MKDetector
from kats.utils.decomposition import TimeSeriesDecomposition
from scipy import stats

import gen
from checks.c13 import series
from checks.c16 import quantile
from core import Skip

PROPERTY = "C19"
RULE = ("random daily series (1-4 columns) with trends, breaks, plateaus and seasons; random series of several periods "
        "for the spectra; random sparse and patterned columns for the subsequences; distinct = (detector, options, "
        "sizes, answer) signature")
ASSUMPTIONS = ["values within rounding of a limit (ties, significance, peak thresholds) are set aside",
               "subsequence search is judged on data that are not negative, with windows of at least three points"]

SEASON = {None: 1, "daily": 1, "weekly": 7, "monthly": 30}


def smooth(x, season):
    """The moving average over a season, then simple exponential smoothing with weight 0.2."""
    if season is not None:
        w = SEASON[season]
        x = [math.fsum(x[i - w + 1:i + 1]) / w for i in range(w - 1, len(x))]
    if max(x) - min(x) < 1e-12 * max(1.0, abs(max(x))):
        if max(x) != min(x):
            raise Skip
        return list(x)
    out = [x[0]]
    for y in x[:-1]:
        out.append(0.2 * y + 0.8 * out[-1])
    return out


def kendall(x):
    """(score, its variance, number of pairs); ties only if exact."""
    s, ties, scale = 0, {}, max(abs(y) for y in x) or 1.0
    for i in range(len(x)):
        ties[x[i]] = ties.get(x[i], 0) + 1
        for j in range(i):
            d = x[i] - x[j]
            if d != 0 and abs(d) < 1e-11 * scale:
                raise Skip
            s += (d > 0) - (d < 0)
    n = len(x)
    var = (n * (n - 1) * (2 * n + 5) - sum(g * (g - 1) * (2 * g + 5) for g in ties.values())) / 18
    return s, var, n * (n - 1) / 2


def trend(parts, alpha, threshold):
    s, var, pairs = (sum(p[i] for p in parts) for i in range(3))
    tau = s / pairs
    z = 0.0 if s == 0 else (s - (1 if s > 0 else -1)) / math.sqrt(var)
    limit = float(stats.norm.isf(alpha / 2))
    if abs(abs(z) - limit) < 1e-9 or (abs(abs(tau) - threshold) < 1e-9 and threshold > 0):
        raise Skip
    word = "no trend"
    if abs(z) > limit and abs(tau) > threshold:
        word = "increasing" if s > 0 else "decreasing"
    return word, 2 * float(stats.norm.sf(abs(z))), tau


def mk(c):
    k = c.choice([1, 1, 2, 3, 4])
    season = c.choice([None, None, "weekly", "daily", "monthly"])
    w = c.choice([20, 20, c.int(5, 15)])
    n = w + SEASON[season] + c.int(2, 30)
    i = np.arange(n)
    v = np.zeros((n, k))
    for q in range(k):
        a = c.int(0, n)
        v[:, q] = c.choice([0.0, 0.05, -0.1, 0.5]) * i + c.choice([0.0, 0.3, -0.4]) * np.maximum(i - a, 0)
        v[:, q] += c.choice([0.0, 2.0]) * np.sin(2 * math.pi * i / 7) + c.rng.normal(0, c.choice([0.2, 1.0, 4.0]), n)
        if c.chance(0.1):
            v[:, q] = c.int(-3, 3)
    # longer names only: a column called "overall" or "ds" would collide with the report's own
    names = gen.names(c, k)
    ts = series(gen.regular(c, n, "D"), v, names, c.choice(gen.TIME_NAMES))
    snap = gen.Frozen(ts)
    t = pd.DatetimeIndex(ts.time)
    alpha, threshold = c.choice([0.05, 0.05, 0.01, 0.3]), c.choice([0.8, 0.5, 0.0, 0.3])
    direction = c.choice(["both", "up", "down"])
    train = c.choice([None, None, w + SEASON[season] - 1 + c.int(0, n - w - SEASON[season])])
    d = MKDetector(ts, threshold=threshold, alpha=alpha, multivariate=c.choice([k > 1, k > 1, True, False]))
    c.note(n=n, k=k, window=w, season=season, alpha=alpha, threshold=threshold, direction=direction, training_days=train)
    if c.chance(0.2):
        d.detector(window_size=5)
        c.event("detectors used again")
    got = d.detector(window_size=w, training_days=train, direction=direction, freq=season)
    lo = 0 if train is None else max(0, n - 1 - train)
    cols = [smooth(v[lo:, q].tolist(), season) for q in range(k)]
    m = len(cols[0])
    ends = range(w, m) if train is None else [m - 1]
    want = []
    for e in ends:
        parts = [kendall(x[max(0, e + 1 - w):e + 1]) for x in cols]
        overall = trend(parts, alpha, threshold)
        each = [trend([p], alpha, threshold) for p in parts]
        want.append((t[n - m + e], overall, each))
    st = d.get_MK_statistics()
    c.check([pd.Timestamp(x) for x in st["ds"]] == [x for x, _, _ in want], "times judged", got=list(st["ds"]), want=[x for x, _, _ in want])
    for (when, (word, p, tau), each), (_, row) in zip(want, st.iterrows()):
        c.close(row["p"], p, "p-value", rtol=1e-6, atol=1e-12, at=when)
        if k == 1:
            c.check(row["trend_direction"] == word, "trend", at=when, got=row["trend_direction"], want=word)
            c.close(row["Tau"], tau, "Tau", at=when)
        else:
            g = row["trend_direction"]
            c.check(set(g) == set(row["Tau"]) == set(names) | {"overall"}, "columns", got=g)
            c.check(g["overall"] == word, "overall trend", at=when, got=g, want=word)
            c.close(row["Tau"]["overall"], tau, "overall Tau", at=when)
            for q, (a, _, b) in zip(names, each):
                c.check(g[q] == a, "trend of a column", at=when, column=q, got=g[q], want=a)
                c.close(row["Tau"][q], b, "Tau of a column", at=when, column=q)
            c.event("multivariate tests")
        c.event("trend tests")
    sel = [x for x in want if {"up": x[1][0] == "increasing", "down": x[1][0] == "decreasing", "both": x[1][0] != "no trend"}[direction]]
    c.check([pd.Timestamp(x.start_time) for x in got] == [x[0] for x in sel], "detected times", got=got, want=[x[0] for x in sel])
    for x, y in zip(got, sel):
        c.check(x.end_time == x.start_time, "end")
        c.close(x.confidence, 1 - y[1][1], "confidence", rtol=1e-9, atol=1e-9)
        c.check((x.trend_direction if k == 1 else x.trend_direction["overall"]) == y[1][0], "direction")
        c.check(x.is_multivariate == (k > 1), "is_multivariate", got=x.is_multivariate, k=k)
        c.event("trends detected")
    if k > 1:
        when, _, each = c.choice(want)
        top = c.choice([None, 1, 2, k + 2])
        g = d.get_top_k_metrics(when, top)
        key = {"up": lambda x: -x, "down": lambda x: x, "both": lambda x: -abs(x)}[direction]
        rank = sorted([(key(e[2]), name, e[2], e[0]) for name, e in zip(names, each)])[:top]
        c.check(len(g) == len(rank), "number of ranked columns", got=g)
        c.close([key(x) for x in g["Tau"]], [x[0] for x in rank], "ranking")
        for _, row in g.iterrows():
            e = each[names.index(row["metric"])]
            c.close(row["Tau"], e[2], "Tau of a ranked column")
            c.check(row["trend_direction"] == e[0] and pd.Timestamp(row["ds"]) == when, "trend of a ranked column")
        c.event("rankings")
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.state("mk", n, k, w, season, alpha, threshold, direction, train, len(got))


def acf(x, lags):
    n, m = len(x), math.fsum(x) / len(x)
    y = [a - m for a in x]
    cov = [math.fsum(y[i] * y[i + g] for i in range(n - g)) / n for g in range(min(lags, n - 1) + 1)]
    return [a / cov[0] for a in cov]


def periodic(c):
    n = c.int(40, 160)
    i = np.arange(n)
    v = c.rng.normal(0, c.choice([0.3, 1.0, 2.0]), n) + c.choice([0, 0, 10.0]) + c.choice([0, 0, 0.1]) * i
    for _ in range(c.choice([0, 1, 1, 2])):
        p = c.int(3, 20)
        a, b = c.choice([1.0, 3.0, 8.0]), c.rng.uniform(0, 6)
        v = v + (a * np.sin(2 * math.pi * i / p + b) if c.chance(0.6) else a * ((i % p) == 0) * 3)
    return n, v


def autocorrelation(c):
    n, v = periodic(c)
    diff, alpha = c.choice([1, 1, 0, 2]), c.choice([0.01, 0.01, 0.05, 0.2])
    lags = c.choice([None, None, c.int(5, 35)])
    ts = series(gen.regular(c, n, "D"), v.reshape(-1, 1), gen.names(c, 1), c.choice(gen.TIME_NAMES))
    snap = gen.Frozen(ts)
    x = v.tolist()
    for _ in range(diff):
        x = [b - a for a, b in zip(x, x[1:])]
    r = acf(x, lags if lags is not None else n // 3)
    half = float(stats.norm.isf(alpha / 2))
    cand = []
    for g in range(2, len(r)):
        low = r[g] - half * math.sqrt((1 + 2 * math.fsum(a * a for a in r[1:g])) / len(x))
        if abs(low) < 1e-9:
            raise Skip
        if low >= 0:
            cand.append(g)
    want = []
    for g in cand:
        if all(g % a for a in want):
            want.append(g)
    d = ACFDetector(ts)
    if c.chance(0.3):
        d.detector(lags=3)
    got = d.detector(lags=lags, diff=diff, alpha=alpha)
    c.note(n=n, diff=diff, alpha=alpha, lags=lags, want=want)
    c.check(got["seasonality_presence"] == bool(want), "presence", got=got, want=want)
    c.check(list(got["seasonalities"]) == want, "lengths", got=got, want=want)
    c.event("autocorrelation answers")
    c.event("seasons by autocorrelation", len(want))
    if n <= 90:
        force = c.chance(0.3)
        res = d.remover(decompose_any_way=force)
        c.check((res is None) == (not want and not force), "decomposition only if seasonal or forced", got=res)
        if res is not None:
            ref = TimeSeriesDecomposition(ts, "additive").decomposer()
            for key in ref:
                c.close(res[key].value.values, ref[key].value.values, f"decomposition: {key}")
            c.event("decompositions")
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.state("acf", n, diff, alpha, lags, want)


def spectrum(c):
    n, v = periodic(c)
    if c.chance(0.05):
        v[:] = c.choice([0.0, 5.0])
    space, mad = c.choice([1.0, 1.0, 24.0, 7.0]), c.choice([6.0, 6.0, 2.0, 3.0, 10.0])
    ts = series(gen.regular(c, n), v.reshape(-1, 1), gen.names(c, 1), c.choice(gen.TIME_NAMES))
    snap = gen.Frozen(ts)
    d = FFTDetector(ts)
    got = d.detector(sample_spacing=space, mad_threshold=mad)
    c.note(n=n, spacing=space, mad=mad, got=got)
    c.event("spectra")
    if v.max() == v.min():
        c.check(not got["seasonality_presence"] and not got["seasonalities"], "constant data have no season", got=got)
        return
    i = np.arange(n)
    freq, ampl = [], []
    for f in range(1, (n - 1) // 2 + 1):
        a, b = math.fsum(v * np.cos(2 * math.pi * f * i / n)), math.fsum(v * np.sin(2 * math.pi * f * i / n))
        freq.append(f * space / n)
        ampl.append(10 * math.log10(a * a + b * b))
    if min(abs(a) for a in ampl) < 1e-6:
        raise Skip
    fft = d.get_fft(space)
    c.close(fft["freq"], freq, "frequencies")
    c.close(fft["ampl"], ampl, "amplitudes", rtol=1e-6, atol=1e-6)
    pos = [a for a in ampl if a > 0]
    med = quantile(pos, 0.5)
    top = [a for a in pos if a > med]
    limit = med + mad * math.fsum(abs(a - math.fsum(top) / len(top)) for a in top) / len(top)
    peaks = []
    for j in range(1, len(ampl) - 1):
        rise = min(ampl[j] - ampl[j - 1], ampl[j] - ampl[j + 1])
        if ampl[j] > 0 and (abs(rise - 0.1) < 1e-6 or abs(ampl[j] - limit) < 1e-6):
            raise Skip
        if rise > 0.1 and ampl[j] > limit:
            peaks.append(freq[j])
    keep = []
    for j, f in enumerate(peaks):
        off = [min((f / g) % 1, 1 - (f / g) % 1) for g in peaks[:j]]
        if any(abs(o - 0.01) < 1e-9 for o in off):
            raise Skip
        if all(o > 0.01 for o in off):
            keep.append(1 / f)
    c.check(got["seasonality_presence"] == bool(keep), "presence", got=got, want=keep)
    c.check(len(got["seasonalities"]) == len(keep), "number of seasons", got=got, want=keep)
    c.close(sorted(got["seasonalities"]), sorted(keep), "seasons")
    c.event("seasons by spectrum", len(keep))
    c.event("harmonics removed", len(peaks) - len(keep))
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.state("fft", n, space, mad, len(keep), len(peaks))


def warp(a, b, w):
    """Root of the least sum of squares over alignments with -w <= j - i < w."""
    n = len(a)
    cost = {}

    def at(i, j):
        if i < 0 and j < 0:
            return 0.0
        return cost.get((i, j), math.inf)

    for i in range(n):
        for j in range(max(0, i - w), min(n, i + w)):
            cost[i, j] = (a[i] - b[j]) ** 2 + min(at(i - 1, j), at(i, j - 1), at(i - 1, j - 1))
    return math.sqrt(at(n - 1, n - 1))


def subsequences(c):
    k = c.int(2, 5)
    w = c.int(3, 9)
    n = c.int(2 * w + 1, 2 * w + 22)
    skip = c.int(1, 4)
    same = c.chance(0.4)
    cut = c.choice([1, 1, 0.5, 1.5, 2])
    base = np.abs(np.sin(np.arange(n) * 2 * math.pi / c.int(3, 10))) * c.choice([1.0, 5.0])
    v = np.zeros((n, k))
    for q in range(k):
        kind = c.choice(["pattern", "pattern", "pattern", "zero", "sparse", "odd"])
        if kind == "pattern":
            v[:, q] = np.abs(base + c.rng.normal(0, 0.1, n))
        elif kind == "sparse":
            v[c.int(0, n - 1), q] = c.choice([1.0, 7.0])
        elif kind == "odd":
            v[:, q] = np.abs(base + c.rng.normal(0, 0.1, n))
            at = c.int(0, n - w)
            v[at:at + w, q] += c.choice([3.0, 20.0])
    names = gen.names(c, k)
    ts = series(gen.regular(c, n), v, names, c.choice(gen.TIME_NAMES))
    snap = gen.Frozen(ts)
    t = pd.DatetimeIndex(ts.time)
    d = DTWCPDDetector(ts, sliding_window_size=w, skip_size=skip, mad_threshold=cut, match_against_same_time_series=same)
    got = d.detector()
    c.note(n=n, k=k, window=w, skip=skip, same=same, cutoff=cut, found=len(got))
    if c.chance(0.2):
        got = d.detector()
        c.event("detectors used again")
    c.event("searches")
    subs = {}
    for q in range(k):
        x = {i: v[i:i + w, q].tolist() for i in range(0, n - w + 1, skip) if v[i:i + w, q].max() > 1e-9}
        if x:
            subs[names[q]] = x
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.state("dtw", n, k, w, skip, same, cut, len(subs), len(got))
    if not subs:
        c.check(len(got) == 0, "zero data have no change points", got=got)
        return
    if len(subs) == 1:
        name, x = list(subs.items())[0]
        c.check(len(got) == 1 and got[0].ts_name == name and got[0].start_time == t[min(x)]
                and got[0].end_time == t[min(x) + w - 1], "the only series that is not zero", got=got, want=(name, t[min(x)]))
        c.event("only series")
        return
    far = {}
    for a in subs:
        best = []
        for i, x in subs[a].items():
            near = [warp(x, y, w // 3) for b in subs if b != a or same for j, y in subs[b].items() if b != a or abs(i - j) >= w]
            if near:
                best.append((min(near), i))
        far[a] = max(best)[0], [i for z, i in best if z >= max(best)[0] - 1e-9]
    med = quantile([x for x, _ in far.values()], 0.5)
    mad = math.fsum(abs(x - med) for x, _ in far.values()) / len(far)
    if mad < 1e-9:
        return
    shown = {x.ts_name: x for x in got}
    c.check(len(shown) == len(got), "each series at most once", got=got)
    for a, (dist, at) in far.items():
        score = abs(dist - med) / mad
        if abs(score - cut) < 1e-7:
            continue
        c.check((a in shown) == (score > cut), "unusual series", series=a, score=score, got=got)
        c.event("series judged")
        if a in shown:
            x = shown[a]
            c.close(x.confidence, score, "confidence", rtol=1e-6)
            c.check(any(x.start_time == t[i] and x.end_time == t[i + w - 1] for i in at), "place of the subsequence", got=x, want=[t[i] for i in at])
            c.event("unusual subsequences")


def refused(c):
    n = c.int(25, 60)
    t = gen.regular(c, n, "D")
    one, two = series(t, c.rng.rand(n, 1), ["v"]), series(t, c.rng.rand(n, 2), ["a", "b"])
    kind = c.choice(["acf", "fft", "dtw short", "dtw one", "mk direction", "mk short", "mk training", "mk training short", "mk first",
                     "mk plot", "mk metrics"])
    if kind == "acf":
        c.raises((ValueError,), kind, ACFDetector, two)
    elif kind == "fft":
        c.raises((ValueError,), kind, FFTDetector, two)
    elif kind == "dtw short":
        c.raises((DTWTimeSeriesTooSmallException,), kind, DTWCPDDetector, two, n + 1, 1)
    elif kind == "dtw one":
        c.raises((DTWTimeSeriesTooSmallException,), kind, DTWCPDDetector, one, 5, 1)
    elif kind == "mk direction":
        c.raises((ParameterError,), kind, MKDetector(one).detector, direction=c.choice(["UP", "increasing", ""]))
    elif kind == "mk short":
        c.raises((ParameterError,), kind, MKDetector(one).detector, window_size=n + c.int(1, 4))
    elif kind == "mk training":
        c.raises((ParameterError,), kind, MKDetector(one).detector, window_size=15, training_days=c.int(1, 14))
    elif kind == "mk training short":
        c.raises((ParameterError,), kind, MKDetector(one).detector, training_days=n + c.int(1, 4))
    elif kind == "mk first":
        c.raises((InternalError,), kind, MKDetector(one).get_MK_statistics)
    elif kind == "mk plot":
        c.raises((InternalError,), kind, MKDetector(one).plot, [])
    else:
        d = MKDetector(one)
        d.detector(window_size=10)
        c.raises((DataError,), kind, d.get_top_k_metrics, t[-1])
    c.state(kind)


SCENARIOS = [("mk", 90, 3000, mk), ("autocorrelation", 80, 3000, autocorrelation), ("spectrum", 140, 4000, spectrum),
             ("subsequences", 90, 3000, subsequences), ("refused", 60, 600, refused)]
NEED = {"trend tests": 500, "multivariate tests": 200, "trends detected": 150, "rankings": 25, "autocorrelation answers": 60,
        "seasons by autocorrelation": 40, "seasons by spectrum": 40, "harmonics removed": 4, "series judged": 120,
        "unusual subsequences": 50, "refusals observed": 60, "detectors used again": 15}
