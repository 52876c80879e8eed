"""C04: frequency inference and interpolation onto a regular grid."""
import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData

import gen

PROPERTY = "C04"
RULE = ("random series on a regular grid with random missing stretches (never the ends), 1-3 columns, zones, "
        "inner NaN, duplicated points, given or inferred step, the methods linear / ffill / bfill; distinct = "
        "(step, method, gap pattern, columns, zone, inferred or given) signature")
ASSUMPTIONS = ["observed timestamps lie on the target grid, which starts at the first midnight plus whole steps"]

STEPS = {"D": 86400, "H": 3600, "15min": 900, "5min": 300, "T": 60, "2H": 7200, "12H": 43200, "30S": 30, "6H": 21600}


def holes(c, n):
    keep = np.ones(n, dtype=bool)
    style = c.choice(["none", "single", "few", "stretch", "many"])
    if n > 2:
        if style == "single":
            keep[c.int(1, n - 2)] = False
        elif style == "few":
            keep[1:-1] = c.rng.rand(n - 2) > 0.2
        elif style == "stretch":
            a = c.int(1, n - 2)
            keep[a:min(n - 1, a + c.int(1, 6))] = False
        elif style == "many":
            keep[1:-1] = c.rng.rand(n - 2) > 0.6
    return keep, style


def fill(grid, have, v, method):
    """Reference: have = positions with a value, v their values."""
    out = np.empty(len(grid))
    for i in range(len(grid)):
        before = max(p for p in have if p <= i)
        after = min(p for p in have if p >= i)
        if method == "ffill":
            out[i] = v[before]
        elif method == "bfill":
            out[i] = v[after]
        elif before == after:
            out[i] = v[i]
        else:
            w = (i - before) / (after - before)
            out[i] = v[before] * (1 - w) + v[after] * w
    return out


def regularize(c):
    freq = c.choice(sorted(STEPS))
    step = STEPS[freq]
    n = c.choice([2, 3, 4, 6, 12, 40])
    t0 = pd.Timestamp("2021-03-01") + pd.Timedelta(step * c.int(0, max(86400 // step - 1, 0)), "s")
    full = pd.date_range(t0, periods=n, freq=f"{step}S")
    if c.chance(0.3):
        full = full.tz_localize("UTC")
    keep, style = holes(c, n)
    method = c.choice(["linear", "linear", "ffill", "bfill"])
    k = c.choice([1, 1, 2, 3])
    cols = gen.names(c, k)
    name = c.choice(gen.TIME_NAMES)
    truth = {q: np.asarray(gen.values(c, n, c.choice(["normal", "int", "zeros", "big", "const", "steps"])))
             for q in cols}
    df = pd.DataFrame({name: full[keep]})
    pos = np.flatnonzero(keep)
    have = {}
    for q in cols:
        x = truth[q][keep]
        have[q] = list(pos)
        if method == "linear" and c.chance(0.3) and len(x) > 3:
            x = x.astype(float)
            drop = 1 + c.rng.permutation(len(x) - 2)[: c.int(1, 2)]
            x[drop] = np.nan
            have[q] = [p for i, p in enumerate(pos) if i not in set(drop)]
        df[q] = x
    dup = c.chance(0.2)
    if dup:
        extra = df.iloc[c.rng.randint(0, len(df), size=c.int(1, 3))]
        df = pd.concat([df, extra])
    df = df.iloc[c.rng.permutation(len(df))]
    ts = TimeSeriesData(df, time_col_name=name)
    was = gen.Frozen(ts)
    gaps = np.diff(pos)
    infer = c.chance(0.4) and len(gaps) and (gaps == 1).sum() > len(gaps) / 2 and not dup
    arg = {} if infer else {"freq": c.choice([freq, pd.Timedelta(step, "s")])}
    c.note(freq=freq, n=n, holes=style, method=method, cols=k, infer=infer, dup=dup, tz=full.tz)
    out = ts.interpolate(method=method, remove_duplicate_time=dup, **arg)
    c.check(was.unchanged(ts), "the source series is left as it was")
    c.check(list(pd.DatetimeIndex(out.time).asi8) == list(full.asi8), "every grid point from first to last, once",
            got=list(out.time)[:6], want=list(full)[:6], n=len(out))
    c.check(str(out.tz()) == str(full.tz), "zone")
    c.check(out.time_col_name == name, "time name", got=out.time_col_name)
    for q in cols:
        got = out.value.values if k == 1 else out.value[q].values
        want = fill(full, have[q], truth[q], method)
        c.close(np.asarray(got, dtype=float), want, "grid values", rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max()),
                col=q, method=method)
        c.event("grid values compared", n)
        c.event("filled points", n - len(have[q]))
    c.check((out.value.name == cols[0]) if k == 1 else list(out.value.columns) == cols, "value names")
    c.check(not out.is_data_missing(), "nothing is missing afterwards")
    c.state(freq, method, style, k, infer, dup, full.tz, tuple(np.flatnonzero(~keep))[:6])


def frequency(c):
    """The step of a series: exact when regular, by majority otherwise."""
    freq = c.choice(sorted(STEPS))
    step = STEPS[freq]
    n = c.int(4, 30)
    full = pd.date_range(gen.start(c), periods=n, freq=f"{step}S")
    if c.chance(0.3):
        full = full.tz_localize("UTC")
    v = gen.values(c, n, "normal")
    mode = c.choice(["regular", "holes", "holes"])
    keep = np.ones(n, dtype=bool)
    if mode == "holes":
        keep[c.int(1, n - 2)] = False
        keep[1:-1] &= c.rng.rand(n - 2) > 0.1
    pos = np.flatnonzero(keep)
    t, x = full[keep], v[keep]
    order = c.rng.permutation(len(t))
    sort = c.chance(0.6)
    ts = TimeSeriesData(time=pd.Series(t[order]), value=pd.Series(x[order]), sort_by_time=sort)
    gaps = np.diff(pos)
    best = max((int((gaps == g).sum()), -int(g)) for g in set(gaps))
    ties = sum(int((gaps == g).sum()) == best[0] for g in set(gaps))
    c.note(freq=freq, n=len(t), mode=mode, sort=sort)
    if ties == 1:
        got = ts.infer_freq_robust()
        c.check(got == pd.Timedelta(-best[1] * step, "s"), "most common gap", got=got, want=-best[1] * step)
        c.event("majority gaps compared")
    if sort:
        regular = len(set(gaps)) == 1
        if len(t) >= 4:
            c.check(ts.is_data_missing() == (not regular), "missing data is noticed", regular=regular)
        if regular and gaps[0] == 1:
            c.check(ts.freq_to_timedelta() == pd.Timedelta(step, "s"), "step of a regular series",
                    got=ts.freq_to_timedelta())
            ts.validate_data(validate_frequency=True, validate_dimension=True)
            c.event("regular steps compared")
        elif not regular and len(t) >= 4:
            c.raises((ValueError,), "an irregular series fails validation", ts.validate_data, True, True)
    c.state(freq, mode, sort, tuple(gaps[:8]))
    c.raises((ValueError,), "one point has no step", ts[:1].infer_freq_robust)


SCENARIOS = [("regularize", 700, 12000, regularize), ("frequency", 500, 6000, frequency)]
NEED = {"grid values compared": 1000, "filled points": 200, "majority gaps compared": 50}
