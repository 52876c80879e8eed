"""C11: CUSUM change points."""
import math

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
from kats.detectors.cusum_detection import CUSUMDetector, MultiCUSUMDetector, VectorizedCUSUMDetector
from scipy.stats import chi2

import gen
from core import Skip

PROPERTY = "C11"
RULE = ("random series (noise, level shifts of every size at any place, ramps, bumps, seasonal, constant; 4-150 points), "
        "random window of interest, direction, starting point, iteration limit and thresholds; the vectorised detector is "
        "given several such columns at once; distinct = (detector, length, columns, options) signature")
ASSUMPTIONS = ["no ties in the cumulated sums and no decision within rounding of its limit (such cases are set aside)",
               "the magnitude comparison is judged for increases in regular hourly and half-hourly data"]
NEED = {"changes reported": 30, "changes withheld": 30, "columns compared": 60, "multivariate changes": 10,
        "magnitudes compared": 8}


def shape(c, n):
    """A series and what it is."""
    kind = c.choice(["noise", "shift", "shift", "shift", "small", "ramp", "bump", "season", "step", "int"])
    k = c.int(1, n - 2)
    v = c.rng.normal(0, 1, n)
    size = c.choice([-1, 1]) * c.choice([0.5, 1, 2, 5, 20])
    if kind == "shift":
        v[k:] += size
    elif kind == "small":
        v = v * 1e-6
        v[k:] += size * 1e-6
    elif kind == "ramp":
        v += np.arange(n) * size / n
    elif kind == "bump":
        v[k:k + max(2, n // 6)] += size
    elif kind == "season":
        v += 3 * np.sin(np.arange(n) * 2 * np.pi / 7)
    elif kind == "step":
        v = np.where(np.arange(n) < k, 0.0, size) + c.rng.normal(0, 1e-3, n)
    elif kind == "int":
        v = np.round(v * 3) + np.where(np.arange(n) < k, 0, np.round(size))
    return v + c.choice([0, 0, 10, 1000, -50]), kind


def mean(x):
    return math.fsum(x) / len(x)


def argext(x, low):
    """Place of the extreme; a near tie cannot be judged."""
    best = min(x) if low else max(x)
    scale = max(abs(min(x)), abs(max(x)), 1e-300)
    near = [i for i, y in enumerate(x) if abs(y - best) <= 1e-9 * scale]
    if len(near) > 1:
        raise Skip()
    return near[0]


def run(x, middle):
    out, s = [], 0.0
    for y in x:
        s += y - middle
        out.append(s)
    return out


def locate(x, low, start, limit):
    """The iteration as documented: split, take the mean of the two means, cumulate, move to the extreme."""
    n = len(x)
    cp = min(argext(run(x, mean(x)), low), n - 2) if start is None else start
    rounds = 0
    stable = None
    while rounds < limit:
        rounds += 1
        nxt = max(1, min(argext(run(x, (mean(x[:cp + 1]) + mean(x[cp + 1:])) / 2), low), n - 2))
        if nxt == cp:
            stable = rounds < limit or None  # converged in the very last round: either
            break
        cp = nxt
    else:
        stable = False
    return cp, stable


def ratio(x, cp):
    """Log likelihood ratio of two means against one."""
    n = len(x)
    m0, m1, m = mean(x[:cp + 1]), mean(x[cp + 1:]), mean(x)
    rss = math.fsum((y - m0) ** 2 for y in x[:cp + 1]) + math.fsum((y - m1) ** 2 for y in x[cp + 1:])
    tss = math.fsum((y - m) ** 2 for y in x)
    if n <= 2 or 0 < tss <= 1e-20 * (1 + m * m) * n or 0 < rss <= 1e-18 * tss:
        raise Skip()
    if tss == 0:
        return math.nan  # constant: no change can be told
    s0 = math.sqrt(tss / n)
    s1 = math.sqrt(rss / (n - 2)) if rss else s0 / 100
    return -2 * (n * math.log(s1 / s0) + 0.5 * (rss / s1 ** 2 - tss / s0 ** 2))


def clear(a, b, scale=None):
    """a > b, unless too close to call."""
    if math.isnan(a):
        return False
    if abs(a - b) <= 1e-7 * max(abs(a), abs(b), scale or 0, 1e-12):
        raise Skip()
    return a > b


def reference(x, low, o, magnitude=None):
    iw = o.get("interest_window")
    inner = x if iw is None else x[iw[0]:iw[1]]
    cp, stable = locate(inner, low, o.get("start_point"), o.get("max_iter", 10))
    crit = float(chi2.ppf(1 - o.get("threshold", 0.01), 2))
    sig_int, llr_int = True, math.inf
    if iw is not None:
        llr_int = ratio(inner, cp)
        sig_int = clear(llr_int, crit)
        cp += iw[0]
    m0, m1 = mean(x[:cp + 1]), mean(x[cp + 1:])
    llr = ratio(x, cp)
    change = m1 - m0
    sd = float(np.std(x[:cp])) if cp else math.nan
    least = o.get("min_abs_change", 0)
    size = max(map(abs, x))
    big = clear(change if low else -change, least, 1e-4 * size)
    wide = False if math.isnan(sd) else clear(abs(change), sd * o.get("delta_std_ratio", 1.0), 1e-4 * size)
    # every part is evaluated, so that a case too close to call is set aside
    flagged = clear(llr, crit) and sig_int and big and wide and (magnitude is None or magnitude)
    return dict(cp_index=cp, mu0=m0, mu1=m1, delta=change, llr=llr, llr_int=llr_int, stable=stable, flagged=flagged)


def options(c, n, vector=False):
    o = {}
    if c.chance(0.4):
        o["threshold"] = c.choice([0.5, 0.1, 0.001, 1e-6])
    if c.chance(0.3):
        o["max_iter"] = c.choice([1, 2, 3, 30])
    if c.chance(0.4):
        o["delta_std_ratio"] = c.choice([0.0, 0.5, 2.0, 5.0])
    if c.chance(0.3):
        o["min_abs_change"] = c.choice([0.1, 1, 3])
    if c.chance(0.45) and n >= 8:
        a = c.int(0, n - 6)
        o["interest_window"] = [a, c.choice([n, c.int(a + 4, n)])]
    if c.chance(0.25):
        w = o.get("interest_window", [0, n])
        o["start_point"] = c.int(1, w[1] - w[0] - 2)
    if c.chance(0.5):
        o["return_all_changepoints"] = True
    way = c.choice([None, "increase", "decrease", ["increase"], ["decrease"], ["decrease", "increase"], ["both"], [], [""]])
    if way is not None:
        o["change_directions"] = way
    dirs = [way] if isinstance(way, str) else way
    return o, (["increase", "decrease"] if dirs in (None, [], ["both"], [""]) else dirs)


def compare(c, got, want, t, o, who):
    """Reported change points against the reference, per direction."""
    expect = [(d, r) for d, r in want if r["flagged"] or o.get("return_all_changepoints")]
    c.check([p.direction for p in got] == [d for d, _ in expect], f"{who}: directions reported", want=want,
            got=[(p.direction, p.cp_index, p.llr, p.llr_int, p.delta) for p in got], options=o)
    for p, (d, r) in zip(got, expect):
        c.check(int(p.cp_index) == r["cp_index"], f"{who}: place of the change", got=p.cp_index, want=r, direction=d)
        c.check(bool(p.regression_detected) == r["flagged"], f"{who}: change flagged", got=p, want=r, options=o)
        size = 1 + abs(r["mu0"]) + abs(r["mu1"])
        for q in ("mu0", "mu1", "delta"):
            c.close(getattr(p, q), r[q], f"{who}: {q}", rtol=1e-9, atol=1e-9 * size)
        for q in ("llr", "llr_int"):
            c.close(getattr(p, q), r[q], f"{who}: {q}", rtol=1e-5, atol=1e-5)
        c.close(p.p_value, chi2.sf(r["llr"], 2), f"{who}: p-value", rtol=1e-4, atol=1e-12)
        c.close(p.confidence, 1 - chi2.sf(r["llr"], 2), f"{who}: confidence", rtol=1e-6, atol=1e-12)
        if o.get("interest_window"):
            c.close(p.p_value_int, chi2.sf(r["llr_int"], 2), f"{who}: p-value in the window", rtol=1e-4, atol=1e-12)
        c.check(pd.Timestamp(p.start_time) == t[r["cp_index"]] and pd.Timestamp(p.end_time) == t[r["cp_index"]],
                f"{who}: time of the change", got=p.start_time)
        if r["stable"] is not None:
            c.check(bool(p.stable_changepoint) == r["stable"], f"{who}: convergence", got=p, want=r, options=o)
        c.event("changes reported", bool(r["flagged"]))
        c.event("changes withheld", not r["flagged"])


def single(c):
    n = c.choice([4, 5, 6, 9, 15, 30, 60, 100, 150])
    x, kind = shape(c, n)
    t = pd.date_range(gen.start(c), periods=n, freq=c.choice(["D", "H", "15min"]))
    o, dirs = options(c, n)
    c.note(n=n, kind=kind, options=str(o), first=list(x[:5]))
    c.state("single", n, kind, str(sorted(o.items())))
    p = c.rng.permutation(n) if c.chance(0.3) else np.arange(n)
    ts = TimeSeriesData(time=pd.Series(t[p]), value=pd.Series(x[p], name=c.choice(["value", "y"])))
    frozen = gen.Frozen(ts)
    x = [float(y) for y in x]
    want = [(d, reference(x, d == "increase", o)) for d in dirs]
    det = CUSUMDetector(ts)
    if c.chance(0.3):
        det.detector(interest_window=[0, n], threshold=0.5)  # an earlier run leaves nothing behind
    got = det.detector(**o)
    compare(c, got, want, t, o, "CUSUM")
    c.check(frozen.unchanged(ts), "the data are unchanged")
    if c.chance(0.1):
        c.raises((ValueError,), "an unknown direction is refused", det.detector, change_directions=["up"])
        two = TimeSeriesData(pd.DataFrame({"time": t, "a": x, "b": x}))
        c.raises((ValueError,), "several columns are refused", CUSUMDetector, two)


def flat(c):
    """Constant data have no change; two constant levels have one."""
    n = c.int(4, 60)
    t = pd.date_range(gen.start(c), periods=n, freq="D")
    base, k, d = float(c.choice([0, 1, 5, -3])), c.int(2, n - 2), float(c.choice([1, -1, 4]))
    two = c.chance(0.6)
    v = np.full(n, base)
    if two:
        v[k:] += d
    c.note(n=n, base=base, step=d if two else 0, at=k)
    c.state("flat", n, base, k if two else None)
    ts = TimeSeriesData(time=pd.Series(t), value=pd.Series(v))
    got = CUSUMDetector(ts).detector()
    many = VectorizedCUSUMDetector(ts).detector()
    c.check(len(many) == 1, "one list per column", got=len(many))
    for g in (got, many[0]):
        c.check(len(g) == int(two), "one change point for one step, none for none", got=g)
        if two:
            c.check(g[0].cp_index == k - 1 and g[0].direction == ("increase" if d > 0 else "decrease"),
                    "the last point before the step", got=g, k=k)
            c.close([g[0].mu0, g[0].mu1], [base, base + d], "levels on both sides")
            c.event("changes reported")
    c.event("changes withheld", not two)


def vectorised(c):
    n, m = c.choice([6, 15, 40, 90]), c.choice([1, 2, 3, 6])
    cols = {f"c{i}": shape(c, n)[0] for i in range(m)}
    t = pd.date_range(gen.start(c), periods=n, freq=c.choice(["D", "H"]))
    o, dirs = options(c, n)
    older = c.chance(0.3) and "start_point" not in o and o.get("change_directions", None) in (None, ["increase"],
                                                                                               ["decrease"])
    c.note(n=n, columns=m, options=str(o), detector_=older)
    c.state("vector", n, m, str(sorted(o.items())), older)
    ts = TimeSeriesData(pd.DataFrame(dict(time=t, **cols)))
    frozen = gen.Frozen(ts)
    det = VectorizedCUSUMDetector(ts)
    got = (det.detector_ if older else det.detector)(**o)
    c.check(len(got) == m, "one list per column", got=len(got))
    for g, (name, v) in zip(got, cols.items()):
        try:
            want = [(d, reference([float(y) for y in v], d == "increase", o)) for d in dirs]
        except Skip:
            continue
        for _, r in want:
            r["stable"] = None  # shared between the columns
        compare(c, g, want, t, o, "vectorised CUSUM, column " + name)
        c.event("columns compared")
    c.check(frozen.unchanged(ts), "the data are unchanged")


def magnitude(c):
    per = c.choice([24, 48])
    days = c.int(3, 7)
    n = per * days
    t = pd.date_range(gen.start(c).normalize(), periods=n, freq="H" if per == 24 else "30min")
    season = c.choice([0, 0, 5])
    v = 30 + season * np.sin(np.arange(n) * 2 * np.pi / per) + c.rng.normal(0, 1, n)
    a = n - c.int(4, per + per // 2)
    b = c.choice([n, n, n - 1])
    k = c.int(a + 1, n - 2)
    v[k:] += c.choice([2, 8, 12, 40])
    q, r, share = c.choice([0.5, 0.9, 1.0]), c.choice([1.1, 1.3, 1.6]), c.choice([0.2, 0.5, 0.8])
    o = {"interest_window": [a, b], "delta_std_ratio": 0.0}
    c.note(n=n, per=per, window=[a, b], shift_at=k, quantile=q, ratio=r, share=share)
    c.state("magnitude", n, per, a, b, k, q, r, share)

    def top(x):
        s = sorted(x)
        pos = q * (len(s) - 1)
        if abs(pos - math.floor(pos) - 0.5) < 1e-9:
            raise Skip()
        return s[int(round(pos))]

    full = (n - 1) // per
    here, count, seen = top(v[a:b]), 0, 0
    for i in range(full):
        if a - i * per < 0:
            continue
        seen += 1
        count += clear(here / top(v[a - i * per:b - i * per]), r)
    verdict = seen > 0 and (abs(count / seen - share) < 1e-9 or count / seen > share)
    ts = TimeSeriesData(time=pd.Series(t), value=pd.Series(v))
    x = [float(y) for y in v]
    want = [("increase", reference(x, True, o, verdict))]
    o.update(magnitude_quantile=q, magnitude_ratio=r, magnitude_comparable_day=share, change_directions=["increase"],
             return_all_changepoints=c.chance(0.7))
    compare(c, CUSUMDetector(ts).detector(**o), want, t, o, "CUSUM with magnitudes")
    compare(c, VectorizedCUSUMDetector(ts).detector(**o)[0], want, t, o, "vectorised CUSUM with magnitudes")
    c.event("magnitudes compared")


def multivariate(c):
    n, m = c.choice([12, 30, 60, 100]), c.choice([2, 3, 4])
    x = c.rng.normal(0, 1, (n, m)) @ (np.eye(m) + c.rng.normal(0, 0.4, (m, m)))
    k = c.int(2, n - 3)
    d = c.rng.normal(0, 1, m) * c.choice([0, 1, 3, 6])
    x[k:] += d
    t = pd.date_range(gen.start(c), periods=n, freq="D")
    th = c.choice([0.01, 0.1, 1e-4])
    start = c.choice([None, None, c.int(1, n - 3)])
    limit = c.choice([10, 10, 2, 30])
    c.note(n=n, columns=m, shift_at=k, shift=list(d), threshold=th, start=start, max_iter=limit)
    c.state("multi", n, m, k, th, start, limit)
    W = np.linalg.inv(np.cov(x, rowvar=False))
    if np.linalg.cond(W) > 1e4:
        raise Skip()
    cp, converged = n // 2 if start is None else start, None
    for rounds in range(1, limit + 1):
        a, b = x[:cp + 1].mean(axis=0), x[cp + 1:].mean(axis=0)
        s = [float((y - a) @ W @ (y - a) - (y - b) @ W @ (y - b)) for y in x]
        nxt = max(1, min(argext(run(s, 0.0), True), n - 2))
        if nxt == cp:
            converged = rounds < limit or None
            break
        cp = nxt
    else:
        converged = False
    a, b, mid = x[:cp + 1].mean(axis=0), x[cp + 1:].mean(axis=0), x.mean(axis=0)
    llr = math.fsum(float((y - mid) @ W @ (y - mid)) for y in x)
    llr -= math.fsum(float((y - a) @ W @ (y - a)) for y in x[:cp + 1])
    llr -= math.fsum(float((y - b) @ W @ (y - b)) for y in x[cp + 1:])
    flag = clear(llr, float(chi2.ppf(1 - th, m + 1)))
    ts = TimeSeriesData(pd.DataFrame(dict(time=t, **{f"c{i}": x[:, i] for i in range(m)})))
    frozen = gen.Frozen(ts)
    kw = {} if start is None else {"start_point": start}
    det = MultiCUSUMDetector(ts)
    got = det.detector(threshold=th, max_iter=limit, return_all_changepoints=True, **kw)
    c.check(len(got) == 1, "one candidate", got=len(got))
    p = got[0]
    c.check(int(p.cp_index) == cp and pd.Timestamp(p.start_time) == t[cp], "place of the change", got=p.cp_index, want=cp)
    c.close(p.llr, llr, "log likelihood ratio is twice the gain of both sides", rtol=1e-6, atol=1e-6)
    c.close(p.p_value, chi2.sf(llr, m + 1), "p-value", rtol=1e-4, atol=1e-12)
    c.close(p.mu0, a, "means before", rtol=1e-9)
    c.close(p.mu1, b, "means after", rtol=1e-9)
    c.close(p.delta, b - a, "change of the means", rtol=1e-7, atol=1e-9)
    c.check(bool(p.regression_detected) == flag, "change flagged", got=p, llr=llr)
    if converged is not None:
        c.check(bool(p.stable_changepoint) == converged, "convergence", got=p)
    only = det.detector(threshold=th, max_iter=limit, **kw)
    c.check(len(only) == int(flag), "only significant changes are returned", got=only)
    c.event("multivariate changes", flag)
    c.check(frozen.unchanged(ts), "the data are unchanged")


SCENARIOS = [
    ("univariate", 400, 12000, single),
    ("flat", 40, 600, flat),
    ("vectorised", 120, 4000, vectorised),
    ("magnitude", 40, 1000, magnitude),
    ("multivariate", 80, 2000, multivariate),
]
