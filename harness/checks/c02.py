"""C02: a history of operations on a TimeSeriesData agrees with a plain list of rows."""
import collections
import copy

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData, TimeSeriesIterator, TSIterator

import gen
from core import Skip

PROPERTY = "C02"
RULE = ("random histories of 4-12 operations (slice, column choice, exclude, extend, replace values, "
        "copy, frame round trip, iterate, zone change, compare) on 1-3 column series with gaps, ties, NaN, "
        "zones; each step is compared with a list-of-rows model; distinct = (operation sequence, shape) "
        "signature")
ASSUMPTIONS = ["rows with equal timestamps may be reordered among themselves when a new series is made"]


class Model:
    def __init__(self, rows, cols, name):
        self.rows, self.cols, self.name = rows, cols, name

    def sort(self):
        return Model(sorted(self.rows, key=lambda r: r[0]), self.cols, self.name)


def groups(rows):
    g = collections.OrderedDict()
    for t, v in rows:
        g.setdefault(t, collections.Counter())[v] += 1
    return g


def agree(c, ts, m, what):
    got = gen.rows(ts)
    c.event("states compared")
    c.check(len(ts) == len(m.rows) == len(ts.time), what + ": length", got=len(ts), want=len(m.rows))
    c.check([r[0] for r in got] == [r[0] for r in m.rows], what + ": timestamps",
            got=[r[0] for r in got][:8], want=[r[0] for r in m.rows][:8])
    c.check(groups(got) == groups(m.rows), what + ": rows", got=got[:5], want=m.rows[:5])
    c.check(ts.is_empty() == (not m.rows), what + ": emptiness")
    if not m.rows:
        return
    c.check(list(ts.time.index) == list(ts.value.index), what + ": time and values share positions",
            t=list(ts.time.index)[:6], v=list(ts.value.index)[:6])
    c.check(ts.is_univariate() == (len(m.cols) == 1), what + ": dimension")
    c.check(ts.time_col_name == m.name, what + ": time name", got=ts.time_col_name, want=m.name)
    v = np.array([[np.nan if x is None else x for x in r[1]] for r in m.rows], dtype=float)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lo, hi = np.nanmin(v, axis=0), np.nanmax(v, axis=0)
    if len(m.cols) == 1:
        c.check(ts.value.name == m.cols[0], what + ": value name", got=ts.value.name, want=m.cols[0])
        glo, ghi = [float(ts.min)], [float(ts.max)]
    else:
        c.check(list(ts.value.columns) == m.cols, what + ": columns", got=list(ts.value.columns), want=m.cols)
        glo, ghi = [float(ts.min[k]) for k in m.cols], [float(ts.max[k]) for k in m.cols]
    c.close(glo, lo, what + ": min", rtol=0, atol=0)
    c.close(ghi, hi, what + ": max", rtol=0, atol=0)


def fresh(c, cols=None, name=None, t0=None, tz=None, n=None):
    n = n or c.choice([1, 2, 3, 5, 9, 17, 40])
    form = c.choice(["regular", "regular", "irregular", "ties"])
    t = gen.regular(c, n) if form == "regular" else gen.irregular(c, n, dup=form == "ties")
    if t0 is not None:
        t = t - t[0] + t0
    if tz:
        t = t.tz_localize("UTC").tz_convert(tz) if t.tz is None else t.tz_convert(tz)
    cols = cols or gen.names(c, c.choice([1, 1, 2, 3]))
    name = name or c.choice(gen.TIME_NAMES)
    df = pd.DataFrame({name: t})
    for k in cols:
        df[k] = gen.values(c, n, c.choice(["normal", "int", "nan", "zeros", "steps"]))
    ts = TimeSeriesData(df, time_col_name=name)
    m = Model(gen.rows(ts), list(cols), name)
    return ts, m


def do_slice(c, ts, m):
    n = len(m.rows)
    a, b = c.int(-n - 1, n + 1), c.int(-n - 1, n + 1)
    s = slice(c.choice([None, a]), c.choice([None, b]), c.choice([None, None, None, 1, 2, 3]))
    return ts[s], Model(m.rows[s], m.cols, m.name).sort(), f"slice"


def do_cols(c, ts, m):
    if len(m.cols) == 1:
        raise Skip
    k = c.int(1, len(m.cols))
    pick = [int(i) for i in c.rng.permutation(len(m.cols))[:k]]
    cols = [m.cols[i] for i in pick]
    arg = cols[0] if k == 1 and c.chance(0.5) else cols
    return (ts[arg], Model([(t, tuple(v[i] for i in pick)) for t, v in m.rows], cols, m.name).sort(), "columns")


def do_exclude(c, ts, m):
    t = [r[0] for r in m.rows]
    a, b = sorted([c.choice(t) + c.choice([0, 0, -10**9, 10**9]), c.choice(t) + c.choice([0, 0, 10**9])])
    tz = ts.tz()
    A, B = pd.Timestamp(a, tz="UTC"), pd.Timestamp(b, tz="UTC")
    A, B = (A.tz_convert(tz), B.tz_convert(tz)) if tz else (A.tz_localize(None), B.tz_localize(None))
    return ts.exclude(A, B), Model([r for r in m.rows if not a <= r[0] <= b], m.cols, m.name), "exclude"


def do_extend(c, ts, m):
    last = ts.time.iloc[-1]
    where = c.choice(["after", "after", "overlap", "before"])
    t0 = last + pd.Timedelta(1, "D") if where == "after" else ts.time.iloc[0] - pd.Timedelta(
        3 if where == "before" else 0, "D")
    other, mo = fresh(c, cols=m.cols, name=m.name, t0=t0)
    if other.tz() is None and ts.tz() is not None:
        raise Skip
    keep = gen.Frozen(other)
    target = copy.deepcopy(ts)
    if c.chance(0.3):
        # with validation, extending either yields a regular series or refuses
        t_all = [r[0] for r in m.rows] + [r[0] for r in mo.rows]
        gaps = set(np.diff(t_all))
        try:
            target.extend(other, validate=True)
            refused = False
        except ValueError:
            refused = True
        c.check(keep.unchanged(other), "extend leaves its argument alone")
        if len(t_all) >= 3 and len(gaps) == 1 and min(gaps) > 0:
            c.check(not refused, "a regular extension is accepted", gaps=gaps)
        if len(gaps) > 1 and len(t_all) >= 3 and (min(gaps) <= 0 or max(gaps) > 40 * min(gaps)):
            c.check(refused, "an irregular extension is refused", gaps=sorted(gaps)[:5])
        c.event("validated extensions")
        if refused:
            raise Skip
    else:
        target.extend(other, validate=False)
    c.check(keep.unchanged(other), "extend leaves its argument alone")
    return target, Model(m.rows + mo.rows, m.cols, m.name), "extend"


def do_value(c, ts, m):
    new = copy.deepcopy(ts)
    n = len(m.rows)
    v = np.array([gen.values(c, n, c.choice(["normal", "int", "nan"])) for _ in m.cols], dtype=float).T
    if len(m.cols) == 1:
        new.value = pd.Series(v[:, 0], name=m.cols[0], index=ts.value.index)
    else:
        new.value = pd.DataFrame(v, columns=m.cols, index=ts.value.index)
    rows = [(r[0], tuple(None if np.isnan(x) else float(x) for x in v[i])) for i, r in enumerate(m.rows)]
    return new, Model(rows, m.cols, m.name), "set values"


def do_frame(c, ts, m):
    std = c.chance(0.3) and "time" not in m.cols
    df = ts.to_dataframe(standard_time_col_name=std)
    name = "time" if std else m.name
    c.check(list(df.columns) == [name] + m.cols, "frame columns", got=list(df.columns), want=[name] + m.cols)
    arr = ts.to_array()
    c.check(arr.shape == (len(m.rows), 1 + len(m.cols)), "array shape", got=arr.shape)
    c.close(arr[:, 1:].astype(float), np.array([[np.nan if x is None else x for x in r[1]]
                                                for r in gen.rows(ts)]), "array values", rtol=0, atol=0)
    return TimeSeriesData(df, time_col_name=name), Model(m.rows, m.cols, name).sort(), "frame"


def do_iterate(c, ts, m):
    got = []
    for i, p in enumerate(TSIterator(ts)):
        c.check(len(p) == 1, "one point at a time", got=len(p))
        t = pd.DatetimeIndex(p.time).asi8[0]
        v = np.asarray(p.value, dtype=float).reshape(-1)
        got.append((int(t), tuple(None if np.isnan(x) else float(x) for x in v)))
        c.event("points iterated")
    c.check(got == gen.rows(ts), "iteration visits every point once, in order", got=got[:4], want=m.rows[:4])
    cols = []
    for df in TimeSeriesIterator(ts):
        c.check(list(pd.DatetimeIndex(df.index).asi8) == [r[0] for r in got], "column iteration keeps times")
        cols.append([None if np.isnan(x) else float(x) for x in np.asarray(df["y"], dtype=float)])
        c.event("columns iterated")
    c.check(cols == [[r[1][j] for r in got] for j in range(len(m.cols))], "every column visited once, in order",
            n=len(cols))
    return ts, m, "iterate"


def do_zone(c, ts, m):
    new = copy.deepcopy(ts)
    tz = c.choice(["UTC", "US/Pacific", "Asia/Kolkata"])
    if ts.tz() is None:
        c.check(not ts.is_timezone_aware(), "naive")
        before = gen.Frozen(new)
        new.convert_timezone(tz)
        c.check(before.unchanged(new), "converting a naive series does nothing")
        new.set_timezone("UTC")
        c.check(gen.rows(new) == gen.rows(ts) or groups(gen.rows(new)) == groups(gen.rows(ts)),
                "localising to UTC keeps the clock")
    else:
        new.convert_timezone(tz)
        c.check(str(new.tz()) == str(pd.Timestamp("2020", tz=tz).tz), "zone name", got=new.tz(), want=tz)
        c.check(gen.rows(new) == gen.rows(ts), "a zone change keeps every instant")
        again = copy.deepcopy(new)
        again.set_timezone("Asia/Tokyo")
        c.check(gen.rows(again) == gen.rows(new), "setting a zone twice does nothing")
    c.check(new.is_timezone_aware(), "aware")
    return new, Model(m.rows, m.cols, m.name), "zone"


def do_compare(c, ts, m):
    same = TimeSeriesData(ts.to_dataframe(), time_col_name=m.name, sort_by_time=False)
    c.check(ts == same and same == ts and not ts != same, "a series equals its copy")
    if len(m.cols) > 1:
        perm = [m.cols[i] for i in c.rng.permutation(len(m.cols))]
        c.check(ts == TimeSeriesData(time=ts.time, value=ts.value[perm], sort_by_time=False),
                "column order does not matter")
    kind = c.choice(["value", "nan", "time", "drop", "rename"])
    df = ts.to_dataframe().copy()
    i = c.int(0, len(m.rows) - 1)
    k = c.choice(m.cols)
    if kind == "value":
        x = df[k].iloc[i]
        df[k] = df[k].astype(float)
        df.iloc[i, list(df.columns).index(k)] = 1.0 if np.isnan(x) else x + max(1.0, abs(x))
    elif kind == "nan":
        x = df[k].iloc[i]
        df[k] = df[k].astype(float)
        df.iloc[i, list(df.columns).index(k)] = 3.0 if np.isnan(x) else np.nan
    elif kind == "time":
        df[m.name] = list(df[m.name].iloc[:i]) + [df[m.name].iloc[i] + pd.Timedelta(1, "s")] + \
            list(df[m.name].iloc[i + 1:])
    elif kind == "rename":
        df = df.rename(columns={k: "other"})
    else:
        df = df.drop(df.index[i]).reset_index(drop=True)
        if df.empty:
            return ts, m, "compare"
    diff = TimeSeriesData(df, time_col_name=m.name, sort_by_time=False)
    c.check(ts != diff and diff != ts and not ts == diff, f"a series differs after a {kind} change",
            a=ts, b=diff, i=i, ne=(ts != diff, diff != ts, ts == diff), dt=(ts.time.dtype, diff.time.dtype))
    c.check((ts == 3) is False and ("x" == ts) is False, "other types are not equal")
    if not ts != "x":
        c.known("KF-ne-other-type", "ts != 'x' is False")
    return ts, m, "compare"


OPS = [do_slice, do_slice, do_cols, do_exclude, do_extend, do_extend, do_value, do_frame, do_iterate, do_zone,
       do_compare]


def history(c):
    ts, m = fresh(c, tz=c.choice([None, None, "UTC", "US/Pacific"]))
    agree(c, ts, m, "start")
    trail = []
    for _ in range(c.int(4, 12)):
        op = c.choice(OPS)
        keep = gen.Frozen(ts)
        try:
            new, nm, name = op(c, ts, m)
        except Skip:
            c.event("operations not applicable")
            continue
        c.check(keep.unchanged(ts), f"{name} leaves its operand alone")
        agree(c, new, nm, name)
        c.event("operations: " + name)
        trail.append(name)
        if not nm.rows:
            break
        ts, m = new, Model(gen.rows(new), nm.cols, nm.name)
        if len(m.rows) > 120:
            break
        # a history continues from a series in time order
        if [r[0] for r in m.rows] != sorted(r[0] for r in m.rows):
            break
    c.note(trail=" ".join(trail), n=len(m.rows), cols=len(m.cols))
    c.state(trail, min(len(m.rows), 9), len(m.cols))


def own_order(c):
    """A series kept in the order given keeps that order under everything that does not choose rows anew."""
    made, m = fresh(c, n=c.choice([2, 3, 5, 9, 17]), tz=c.choice([None, "UTC", "US/Pacific"]))
    df = made.to_dataframe().iloc[[int(i) for i in c.rng.permutation(len(made))]].reset_index(drop=True)
    ts = TimeSeriesData(df, time_col_name=m.name, sort_by_time=False)
    m = Model(gen.rows(ts), m.cols, m.name)
    agree(c, ts, m, "kept order")
    trail = []
    for _ in range(c.int(2, 5)):
        # (localising a naive series sorts it unless told not to)
        op = c.choice([do_exclude, do_exclude, do_extend, do_value, do_iterate] + ([do_zone] if ts.tz() else []))
        keep = gen.Frozen(ts)
        try:
            new, nm, name = op(c, ts, m)
        except Skip:
            continue
        c.check(keep.unchanged(ts), f"{name} leaves its operand alone")
        if nm.rows:
            agree(c, new, nm, name + " of a series in its own order")
            c.check(gen.rows(new) == nm.rows, f"{name} keeps the given order", got=gen.rows(new)[:6],
                    want=nm.rows[:6])
        c.event("operations on a series in its own order")
        trail.append(name)
        if not nm.rows:
            break
        ts, m = new, nm
    c.note(trail=" ".join(trail))
    c.state("own order", trail, len(m.cols))


SCENARIOS = [("history", 450, 12000, history), ("own_order", 150, 4000, own_order)]
NEED = {"states compared": 1000, "operations: extend": 100, "operations: slice": 100, "operations: exclude": 50,
        "operations: iterate": 50, "operations: zone": 50, "operations: compare": 50,
        "operations on a series in its own order": 100}
