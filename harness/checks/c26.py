"""C26: simulated series follow their formulas, and calendar features the calendar."""
import calendar
import datetime as dt
import math

import numpy as np
import pandas as pd
import pytz
from kats.consts import TimeSeriesData
from kats.utils import feature_engineering as fe
from kats.utils.simulator import Simulator

import gen
from core import Skip

PROPERTY = "C26"
RULE = ("random lengths, frequencies, change points (also at both ends), levels, slopes, seasons, anomalies and orders of components through every "
        "simulator; random times (zones with daylight saving, any order, repeated, around month, year and clock changes) through every calendar "
        "feature; distinct = (simulator or feature, size, settings)")
ASSUMPTIONS = ["with noise, what is left after the formula is judged by its size only (six standard deviations)",
               "change points are distinct and not negative; the simulator has at least as many points as the last change point"]
JOBS = 8
BOUND = 6.5


def simulator(c, n):
    freq = c.choice(["D", "D", "H", "15min", "W-SUN", "MS", "T"])
    start = gen.start(c)
    sim = Simulator(n=n, freq=freq, start=start)
    return sim, pd.date_range(start=start, freq=freq, periods=n)


def grid(c, ts, t):
    c.check(len(ts) == len(t) and list(pd.DatetimeIndex(ts.time)) == list(t), "the simulated times are not the asked ones", got=len(ts), want=len(t))


def points(c, n, k, first=0):
    k = min(k, n - first)
    return sorted(int(x) + first for x in c.rng.choice(n - first, k, replace=False))


def level(c):
    n = c.int(6, 160)
    multi = c.chance(0.35)
    noise = c.choice([0.0, 0.0, 0.5, 30.0])
    sim, t = simulator(c, n)
    cps = points(c, n, c.int(0, 4))
    levels = [round(float(x), 3) for x in c.rng.normal(0, 40, len(cps) + 1)]
    period, size = c.int(2, 20), c.choice([0.0, 3.0, 25.0])
    bad = points(c, n, c.int(0, 4))
    if cps and c.chance(0.5):
        bad = sorted(set(bad + [c.choice(cps)]))  # at the first point of a segment
    c.rng.shuffle(bad)
    z = [float(x) for x in c.rng.choice([-9.0, -4.0, 5.0, 20.0], len(bad))]
    given = list(cps)
    c.rng.shuffle(given)
    seed = c.int(0, 10 ** 6)
    kw = dict(cp_arr=list(given), level_arr=list(levels), noise=noise, seasonal_period=period, seasonal_magnitude=size,
              anomaly_arr=list(bad), z_score_arr=list(z))
    c.note(n=n, multi=multi, noise=noise, cps=given, levels=levels, bad=bad)
    want = []
    for i in range(n):
        seg = sum(1 for p in cps if p <= i)
        want.append(levels[seg] + (z[bad.index(i)] * noise if i in bad else 0.0) + size * math.sin(math.pi / period * i))
    if multi:
        dim = c.int(1, 4)
        ts = sim.level_shift_multivariate_indep_sim(dim=dim, **kw)
        again = sim.level_shift_multivariate_indep_sim(dim=dim, **kw)
        cols = list(ts.value.columns) if dim > 1 else None
        if dim > 1:
            c.check(cols == [f"value{i + 1}" for i in range(dim)], "names of the columns", got=cols)
        V = np.asarray(ts.value, dtype=float).reshape(n, -1)
        c.check(V.shape[1] == dim, "number of columns", got=V.shape, want=dim)
        seed = None
    else:
        ts = sim.level_shift_sim(random_seed=seed, **kw)
        again = sim.level_shift_sim(random_seed=seed, **kw)
        V = np.asarray(ts.value, dtype=float).reshape(n, -1)
    grid(c, ts, t)
    c.check(kw["cp_arr"] == given and kw["level_arr"] == levels and kw["anomaly_arr"] == bad, "the caller's lists change")
    c.check(np.array_equal(np.asarray(again.value, dtype=float).reshape(n, -1), V), "the same seed gives another series")
    left = V - np.array(want)[:, None]
    noisy(c, left, noise, [i for i in range(n) if i in bad])
    if noise and multi and dim > 1:
        free = [i for i in range(n) if i not in bad]
        if len(free) > 3:
            c.check(all(not np.allclose(left[free, a], left[free, b], atol=1e-6 * noise) for a in range(dim) for b in range(a)),
                    "two columns have the same noise")
    if noise and not multi:
        c.check(not np.allclose(np.asarray(sim.level_shift_sim(random_seed=seed + 1, **kw).value, dtype=float).reshape(n, -1), V)
                or len(bad) == n, "another seed gives the same series")
    refusals(c, sim.level_shift_multivariate_indep_sim if multi else sim.level_shift_sim, kw, "level_arr", n)
    c.event("simulated points judged", V.size)
    c.state("level", n, multi, noise, len(cps), size, len(bad))


def noisy(c, left, noise, exact):
    """What the formula leaves over is noise of the asked size, and nothing at anomalies."""
    n = len(left)
    free = [i for i in range(n) if i not in set(exact)]
    c.close(left[exact], np.zeros((len(exact), left.shape[1])), "an anomaly is not at the asked distance from its level", atol=1e-7)
    if not noise:
        c.close(left[free], np.zeros((len(free), left.shape[1])), "a point is not what the formula says", atol=1e-7)
        return
    for k in range(left.shape[1]):
        r = left[free, k] / noise
        if not len(r):
            continue
        c.check(np.isfinite(r).all() and np.abs(r).max() < BOUND, "a point is too far from what the formula says", worst=float(np.abs(r).max()))
        m = len(r)
        c.check(abs(r.mean()) < BOUND / math.sqrt(m), "the noise is not around zero", mean=float(r.mean()), m=m)
        if m > 60:
            c.check(abs((r ** 2).mean() - 1) < BOUND * math.sqrt(2 / m) + 0.1, "the noise has another size", got=float((r ** 2).mean()), m=m)
        c.event("noise values judged", m)


def refusals(c, fn, kw, second, n):
    which = c.int(0, 3)
    bad = dict(kw, anomaly_arr=[], z_score_arr=[])
    if which == 0:
        bad[second] = kw[second] + [1.0]
        what = "segments and change points that do not match are accepted"
    elif which == 1:
        bad.update(cp_arr=kw["cp_arr"] + [n], **{second: kw[second] + [1.0]})
        what = "a change point behind the end is accepted"
    elif which == 2:
        bad.update(anomaly_arr=[c.choice([-1, n])], z_score_arr=[1.0])
        what = "an anomaly outside is accepted"
    else:
        bad.update(anomaly_arr=[1, 2], z_score_arr=[1.0])
        what = "anomalies and scores that do not match are accepted"
    c.raises(ValueError, what, fn, **bad)


def trend(c):
    n = c.int(6, 160)
    noise = c.choice([0.0, 0.0, 0.5, 30.0])
    sim, t = simulator(c, n)
    cps = points(c, n, c.int(0, 4))
    slopes = [round(float(x), 3) for x in c.rng.normal(0, 5, len(cps) + 1)]
    period, size, start = c.int(2, 20), c.choice([0.0, 3.0, 25.0]), float(c.int(-50, 200))
    bad = points(c, n, c.int(0, 4))
    c.rng.shuffle(bad)
    z = [float(x) for x in c.rng.choice([-9.0, -4.0, 5.0, 20.0], len(bad))]
    given = list(cps)
    c.rng.shuffle(given)
    seed = c.int(0, 10 ** 6)
    kw = dict(cp_arr=list(given), trend_arr=list(slopes), intercept=start, noise=noise, seasonal_period=period, seasonal_magnitude=size,
              anomaly_arr=list(bad), z_score_arr=list(z))
    c.note(n=n, noise=noise, cps=given, slopes=slopes, bad=bad)
    # each segment goes on where the one before ended, with its own slope
    y, want = start, []
    for i in range(n):
        if i and i not in cps:
            y += slopes[sum(1 for p in cps if p <= i)]
        want.append(y + size * math.sin(math.pi / period * i) + (z[bad.index(i)] * noise if i in bad else 0.0))
    ts = sim.trend_shift_sim(random_seed=seed, **kw)
    grid(c, ts, t)
    c.check(kw["cp_arr"] == given and kw["trend_arr"] == slopes and kw["anomaly_arr"] == bad, "the caller's lists change")
    V = np.asarray(ts.value, dtype=float)
    np.random.rand(c.int(0, 5))
    c.check(np.array_equal(np.asarray(sim.trend_shift_sim(random_seed=seed, **kw).value, dtype=float), V), "the same seed gives another series")
    noisy(c, (V - np.array(want))[:, None], noise, [i for i in range(n) if i in bad])
    refusals(c, sim.trend_shift_sim, kw, "trend_arr", n)
    c.event("simulated points judged", n)
    c.state("trend", n, noise, len(cps), size, len(bad))


PERIODS = {"D": 86400.0, "7D": 7 * 86400.0, "H": 3600.0, "90min": 5400.0, "12H": 43200.0}


def components(c):
    n = c.int(2, 150)
    sim, t = simulator(c, n)
    sec = np.array([(x - t[0]).total_seconds() for x in t])
    y = np.zeros(n)
    steps, loud = [], None
    for k in range(c.int(1, 5)):
        kind = c.choice(["linear", "sigmoid", "season", "season", "noise"])
        multiply = bool(k) and c.chance(0.4)
        size = round(float(c.rng.normal(0, 5)), 3)
        if kind in ("linear", "sigmoid"):
            f = sec / sec[-1]
            comp = size * f if kind == "linear" else size / (1 + np.exp(-10 * (f - 0.5)))
            out = sim.add_trend(size, c.choice(["sigmoid", "S"]) if kind == "sigmoid" else "linear", multiply=multiply)
        elif kind == "season":
            p = c.choice(sorted(PERIODS))
            comp = size * np.sin(2 * np.pi * sec / PERIODS[p])
            out = sim.add_seasonality(size, period=dt.timedelta(seconds=PERIODS[p]) if c.chance(0.5) else p, multiply=multiply)
        else:
            if n < 3 or (multiply and not (np.abs(y) > 1e-6).all()):
                continue
            before = y.copy()
            out = sim.add_noise(size, multiply=multiply)
            got = np.asarray(sim.stl_sim().value, dtype=float)
            comp = got / before - 1 if multiply else got - before
            noisy(c, comp[:, None] / (abs(size) or 1.0), 1.0 if size else 0.0, [])
            loud = True
        c.check(out is sim, "adding a component does not return the simulator")
        y = y * (1 + comp) if multiply else y + comp
        steps.append((kind, multiply))
    if not steps:
        raise Skip
    c.note(n=n, steps=steps)
    ts = sim.stl_sim()
    grid(c, ts, t)
    V = np.asarray(ts.value, dtype=float)
    c.close(V, y, "the sum of the components is not what the formulas say", rtol=1e-6, atol=1e-6 * (1 + np.abs(y).max()))
    keep = V.copy()
    sim.add_trend(100.0)
    c.check(np.array_equal(np.asarray(ts.value, dtype=float), keep), "a series changes when the simulator goes on")
    c.event("simulated points judged", n)
    c.state("components", tuple(steps), n, loud)


def arima(c):
    n, d = c.int(200, 700), c.choice([0, 0, 1, 2])
    sim, t = simulator(c, n)
    ar = c.choice([[], [0.6], [-0.5], [0.9, -0.5], [0.2, 0.5], [0.3, -0.4, 0.4], [0.0, 0.0, 0.7]])
    ma = c.choice([[], [0.5], [-0.6], [0.3, 0.4], [0.0, 0.6], [-0.2, 0.1, 0.5]])
    mu, sigma, drift = c.choice([0.0, 2.0]), c.choice([0.5, 1.0, 8.0]), c.choice([0.0, 1.5])
    burnin, seed = c.int(0, 40), c.int(0, 10 ** 6)

    def run(order=d, **kw):
        np.random.seed(seed)
        a, m = list(ar), list(ma)
        ts = sim.arima_sim(ar=a, ma=m, burnin=burnin, d=order, **{**dict(mu=mu, sigma=sigma, t=drift), **kw})
        grid(c, ts, t)
        c.check(a == list(ar) and list(m) == list(ma), "the caller's coefficients change")
        return np.asarray(ts.value, dtype=float)
    c.note(n=n, d=d, ar=ar, ma=ma, mu=mu, sigma=sigma, t=drift, burnin=burnin)
    x = run()
    c.check(np.array_equal(run(), x), "the same random state gives another series")
    base = run(order=0)
    s = base.copy()
    for _ in range(d):
        s = np.cumsum(s)
    c.close(x, s, "the integrated series is not the sum of the other one", rtol=1e-9, atol=1e-6)
    # without noise, the recursion itself
    p, q = len(ar), len(ma)
    flat = run(order=0, sigma=1e-13)
    full = max(p, q)
    const = mu * (1 + sum(ma)) + drift
    got = [flat[i] - sum(a * flat[i - k - 1] for k, a in enumerate(ar)) for i in range(full, n)]
    c.close(got, np.full(len(got), const), "without noise the series does not follow its recursion", rtol=1e-7, atol=1e-7)
    # with noise: take the recursion apart again; what is left must be the noise
    e = np.zeros(n)
    for i in range(n):
        w = base[i] - drift - mu * (1 + sum(ma))
        for k, a in enumerate(ar):
            if i - k - 1 >= 0:
                w -= a * base[i - k - 1]
        for k, b in enumerate(ma):
            if i - k - 1 >= 0:
                w -= b * e[i - k - 1]
        e[i] = w
    r = e[80:] / sigma
    m = len(r)
    noisy(c, r[:, None], 1.0, [])
    for lag in (1, 2, 3):
        c.check(abs((r[lag:] * r[:-lag]).mean()) < BOUND / math.sqrt(m), "neighbouring noise values depend on each other", lag=lag,
                got=float((r[lag:] * r[:-lag]).mean()), m=m)
    c.raises(ValueError, "a standard deviation that is not positive is accepted", sim.arima_sim, ar=[0.1], ma=[0.1], sigma=c.choice([0, -1.0]))
    c.event("recursions judged", n)
    c.state("arima", tuple(ar), tuple(ma), d, mu, drift)


def inject(c):
    n = c.int(5, 80)
    what = c.choice(["level", "trend", "spikes"])
    cols = c.int(2, 3) if what == "level" and c.chance(0.3) else 1
    t = gen.regular(c, n, c.choice(["D", "H", "15min", "MS"]))
    kinds = ["normal", "int", "const", "steps", "zeros"] + (["nan"] if what != "spikes" else [])
    table = {"time": t}
    for k in range(cols):
        table[f"v{k}"] = gen.values(c, n, c.choice(kinds))
    x = TimeSeriesData(pd.DataFrame(table))
    snap = gen.Frozen(x)
    X = np.asarray(x.value, dtype=float).reshape(n, -1)
    sim = Simulator(n=c.int(1, 20), freq="D", start="2020-01-01")
    pos = points(c, n, c.int(1, 4))
    add = np.zeros(n)
    if what == "spikes":
        z = [float(v) for v in c.rng.choice([-3.0, 0.0, 4.0, 10.5], len(pos))]
        eps = c.choice([0, 0.0, 0.25, 2])
        near = [X[i, 0] - (X[i, 0] + X[i - 1, 0] + X[i - 2, 0]) / 3 for i in range(2, n)]
        m = math.fsum(near) / len(near)
        sd = math.sqrt(math.fsum((v - m) ** 2 for v in near) / len(near))
        for i, s in zip(pos, z):
            add[i] = s * (sd + eps)
        fn, args = sim.inject_spikes, (list(pos), list(z))
        kw = {"epsilon_std_dev": eps}
    else:
        par = [round(float(v), 2) for v in c.rng.normal(0, 5, len(pos) - 1)]
        if len(pos) < 2:
            pos = points(c, n, 2)
            par = [c.choice([1.5, -2.0, 7.0])]
        for a, b, v in zip(pos, pos[1:], par):
            if what == "level":
                add[a:b] += v
            else:
                add[a:b] += [v * i for i in range(b - a)]
                add[b:] += v * (b - a - 1)
        fn, args, kw = (sim.inject_level_shift if what == "level" else sim.inject_trend_shift), (list(pos), list(par)), {}
    c.note(n=n, what=what, cols=cols, args=args, **kw)
    keep = (list(args[0]), list(args[1]))
    y = fn(x, *args, **kw)
    Y = np.asarray(y.value, dtype=float).reshape(n, -1)
    c.check(snap.unchanged(x), "the given series changes")
    c.check((args[0], args[1]) == keep, "the caller's lists change")
    c.check(list(y.time) == list(x.time) and y.time_col_name == x.time_col_name, "injecting changes the times")
    scale = 1e-9 * (1 + float(np.nanmax(np.abs(X))) if np.isfinite(X).any() else 1.0)
    c.close(Y, X + add[:, None], "the injected change is not the asked one", rtol=1e-9, atol=scale)
    if np.isfinite(Y).all():
        c.close(np.asarray(y.min, dtype=float).ravel(), Y.min(axis=0), "minimum of the changed series", rtol=1e-9, atol=scale)
        c.close(np.asarray(y.max, dtype=float).ravel(), Y.max(axis=0), "maximum of the changed series", rtol=1e-9, atol=scale)
    first, second = args
    which = c.int(0, 4)
    if which == 0:
        bad, why = ([n] if what == "spikes" else first[:-1] + [n], second[:1] if what == "spikes" else second), "a position behind the end is accepted"
    elif which == 1:
        bad, why = (first, second + [1.0]), "positions and sizes that do not match are accepted"
    elif which == 2:
        bad, why = ([], []), "empty lists are accepted"
    elif which == 3 and len(first) > 1:
        bad, why = (first[::-1], second), "unsorted positions are accepted"
    else:
        bad, why = (first, []), "an empty list of sizes is accepted"
    c.raises(ValueError, why, fn, x, *bad)
    c.check(snap.unchanged(x), "the given series changes when refused")
    c.event("injected points judged", n)
    c.state("inject", what, n, cols, len(pos))


ZONES = [None, None, "UTC", "US/Pacific", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "America/Sao_Paulo", "Pacific/Apia"]
PART = {**{h: 0 for h in (23, 0, 1, 2, 3, 4)}, **{h: 1 for h in (5, 6, 7)}, **{h: 2 for h in range(8, 13)}, **{h: 3 for h in range(13, 18)},
        18: 4, 19: 4, **{h: 5 for h in (20, 21, 22)}}


def moments(c, n, zone):
    """Instants around the edges of days, months, years and clock changes."""
    out = []
    for _ in range(n):
        kind = c.int(0, 5)
        if kind == 0:
            base = pd.Timestamp(c.choice([2000, 2019, 2020, 2021, 2024, 2100]), c.int(1, 12), 1) - pd.Timedelta(seconds=c.choice([0, 1, 60, 43200, 86400]))
        elif kind == 1:
            base = pd.Timestamp(c.choice(["2021-03-14 09:30", "2021-03-14 10:30", "2021-11-07 08:30", "2021-11-07 09:30", "2021-03-28 00:59:59",
                                          "2021-10-31 01:00", "2021-10-02 15:29", "2021-10-02 15:30", "2018-02-18 01:59"]))
        elif kind == 2:
            base = pd.Timestamp(c.choice([2016, 2020, 2023, 2024]), 2, 28) + pd.Timedelta(hours=c.int(0, 60))
        else:
            base = pd.Timestamp("1990-01-01") + pd.Timedelta(milliseconds=int(c.rng.randint(0, 10 ** 9)) * 1500 + c.choice([0, 0, 7, 250]))
        out.append(base)
    order = c.choice(["any", "sorted", "reverse"])
    if order != "any":
        out.sort(reverse=order == "reverse")
    if n > 2 and c.chance(0.3):
        out[c.int(0, n - 1)] = out[c.int(0, n - 1)]
    if zone is None:
        return pd.DatetimeIndex(out), [o.to_pydatetime() for o in out]
    z = pytz.timezone(zone)
    local = [z.fromutc(o.to_pydatetime()) if zone != "UTC" else pytz.utc.localize(o.to_pydatetime()) for o in out]
    return pd.DatetimeIndex(out).tz_localize("UTC").tz_convert(zone), local


def day_row(x):
    first = dt.date(x.year, x.month, 1)
    days = calendar.monthrange(x.year, x.month)[1]
    return {"year": x.year, "month": x.month, "day": x.day, "dayofweek": x.weekday(), "dayofyear": x.timetuple().tm_yday,
            "quarter": (x.month + 2) // 3, "season": (x.month + 1) % 12 // 3, "weekofyear": x.isocalendar()[1],
            "weekofmonth": -(-(first.weekday() + x.day) // 7), "is_weekend": x.weekday() > 4, "is_leap_year": calendar.isleap(x.year),
            "is_leap_day": (x.month, x.day) == (2, 29), "is_month_end": x.day == days, "is_quarter_end": x.day == days and x.month in (3, 6, 9, 12)}


def time_row(x):
    return {"hour": x.hour, "minute": x.minute, "second": x.second, "milliseconds": x.microsecond / 1000, "quarterhour": x.minute // 15 + 1,
            "hourofweek": x.weekday() * 24 + x.hour, "daytime": PART[x.hour],
            "dst": math.nan if x.tzinfo is None else x.dst().total_seconds(),
            "utcoffset": math.nan if x.tzinfo is None else x.utcoffset().total_seconds()}


def features(c):
    n = c.int(1, 40)
    zone = c.choice(ZONES)
    if c.chance(0.25):
        index = pd.date_range(gen.start(c), periods=n, freq=c.choice(["D", "H", "15min", "W-SUN", "MS", "M"]), tz=zone)
        local = [x.to_pydatetime() for x in index]
    else:
        index, local = moments(c, n, zone)
    name = c.choice(["val", "x", "_"])
    s = pd.Series(c.rng.normal(0, 1, n), index=index, name=name)
    keep = s.copy()
    which = c.choice(["date", "time", "both"])
    fn, row = {"date": (fe.date_features, day_row), "time": (fe.time_features, time_row),
               "both": (fe.datetime_features, lambda x: {**day_row(x), **time_row(x)})}[which]
    given = c.chance(0.3)
    extra = pd.DataFrame({"given": np.arange(n)}, index=index) if given else None
    c.note(n=n, zone=zone, which=which, given=given)
    out = fn(s, extra) if given else fn(s)
    c.check(s.equals(keep) and s.name == name and s.index.equals(index), "the caller's series changes")
    want = [row(x) for x in local]
    names = list(want[0])
    c.check(len(out) == n and out.index.equals(index), "the features have other rows")
    c.check(sorted(out.columns) == sorted(names + ["given" if given else name]), "the features are not the documented ones", got=list(out.columns))
    if given:
        c.check(out is extra, "the features are not put into the given frame")
        c.check(out["given"].tolist() == list(range(n)), "a given column changes")
    else:
        c.close(np.asarray(out[name], dtype=float), keep.to_numpy(), "the values change", rtol=0, atol=0)
    if which != "time":
        # the table of the code and the formula stated for it differ in three months
        odd = [i for i, x in enumerate(local) if x.month in (5, 8, 11) and int(out["season"].iloc[i]) == x.month // 3]
        if odd:
            c.known("KF-season-months", "season of May, August and November")
        for i in odd:
            want[i]["season"] = int(out["season"].iloc[i])
    for k in names:
        c.close(np.asarray(out[k], dtype=float), [float(w[k]) for w in want], "a calendar feature is not the calendar's", rtol=0, atol=1e-9, feature=k)
    c.event("calendar features judged", n * len(names))
    i = c.int(0, n - 1)
    one = fe.timestamp_datetime_features(index[i])
    w = {**day_row(local[i]), **time_row(local[i])}
    c.check(sorted(one) == sorted(w), "features of one moment", got=sorted(one))
    if local[i].month in (5, 8, 11) and int(one["season"]) == local[i].month // 3:
        c.known("KF-season-months", "season of May, August and November")
        w["season"] = one["season"]
    c.close([float(one[k]) for k in sorted(w)], [float(w[k]) for k in sorted(w)], "a feature of one moment is not the calendar's", rtol=0, atol=1e-9)
    # around the circle
    if which != "date":
        periods = {"hour": 24, "minute": c.choice([60, 30]), "hourofweek": 168}
    else:
        periods = {"month": 12, "dayofweek": 7, "dayofyear": c.choice([365, 366])}
    modulo = c.chance(0.5)
    before = out.copy(deep=True)
    circ = fe.circle_encode(out, dict(periods), modulo=modulo)
    c.check(gen.frame_equal(out, before), "encoding changes the features")
    c.check(sorted(circ.columns) == sorted(f"{k}_{p}" for k in periods for p in ("cos", "sin")) and circ.index.equals(index), "names of the encoded features",
            got=list(circ.columns))
    for k, p in periods.items():
        phase = [2 * math.pi * float(w[k]) / p for w in want]
        c.close(np.asarray(circ[f"{k}_cos"], dtype=float), [math.cos(a) for a in phase], "an encoded feature is not on the circle", atol=1e-9, feature=k)
        c.close(np.asarray(circ[f"{k}_sin"], dtype=float), [math.sin(a) for a in phase], "an encoded feature is not on the circle", atol=1e-9, feature=k)
    c.event("encoded features judged", 2 * n * len(periods))
    c.state("features", which, zone, n, given, modulo)


SCENARIOS = [
    ("level", 160, 4000, level),
    ("trend", 160, 4000, trend),
    ("components", 200, 5000, components),
    ("arima", 60, 1500, arima),
    ("inject", 240, 6000, inject),
    ("features", 200, 6000, features),
]
NEED = {"simulated points judged": 15000, "noise values judged": 10000, "recursions judged": 10000, "injected points judged": 4000,
        "calendar features judged": 20000, "encoded features judged": 6000, "refusals observed": 300}
