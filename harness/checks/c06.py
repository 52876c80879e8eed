"""C06: data partitioners split series without leakage, loss, reordering or cross-talk."""
import math
import time

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
from kats.utils import datapartition as D

import gen
from core import Skip

PROPERTY = "C06"
RULE = ("random single / list / dict inputs (1-6 series of different lengths, gaps, ties, zones, multivariate), "
        "fractions, sizes, timestamps, gaps, folds, constant or expanding training windows, serial and threaded "
        "splitting with delays injected into the reads; folds are compared with index arithmetic on the rows; "
        "distinct = (splitter, parameters, shapes, completion order) signature")
ASSUMPTIONS = ["fraction sizes are truncated products of length and fraction",
               "rows with equal timestamps may be reordered among themselves"]

ORDER = []


class Slow(TimeSeriesData):
    """The same series, whose reads take a while (schedule perturbation)."""
    tag, delay = None, 0.0

    def __getitem__(self, sel):
        time.sleep(self.delay)
        ORDER.append(self.tag)
        return super().__getitem__(sel)


def series(c, n):
    t = gen.regular(c, n) if c.chance(0.5) else gen.irregular(c, n, dup=c.chance(0.3))
    if c.chance(0.2) and t.tz is None:
        t = t.tz_localize("UTC")
    df = pd.DataFrame({"time": t})
    for k in ["v", "w", "x"][: c.choice([1, 1, 2, 3])]:
        df[k] = np.asarray(gen.values(c, n, c.choice(["normal", "int"])))
    df["v"] = c.int(0, 99) * 1000.0 + np.arange(n)  # every row is recognisable
    return df


def inputs(c, lo=2, tz=True):
    shape = c.choice(["one", "list", "dict"])
    k = 1 if shape == "one" else c.int(1, 6)
    out = []
    for i in range(k):
        df = series(c, c.int(lo, 40))
        if not tz and df["time"].dt.tz is not None:
            df["time"] = df["time"].dt.tz_localize(None)
        ts = Slow(df)
        ts.tag, ts.delay = i, c.choice([0, 0, 0.001, 0.004]) if shape != "one" else 0
        out.append(ts)
    if shape == "one":
        return shape, out, out[0], [None]
    if shape == "list":
        return shape, out, out, list(range(k))
    keys = c.choice([["b", "a", "e", "d", "c", "f"], [7, 3, 5, 1, 9, 0], ["x", 1, "y", 2, "0", 0]])[:k]
    return shape, out, dict(zip(keys, out)), keys


def how(c):
    multi = c.chance(0.5)
    kw = {"multi": multi}
    if multi:
        kw["max_core"] = c.choice([None, 1, 2, 3, 8, 64])
    return kw


def pick(part, shape, keys, i):
    return part if shape == "one" else part[keys[i]]


def judge(c, shape, all_, data, keys, res, want, kw):
    """want(rows) -> [(train index list, test index list)] of every fold."""
    rows = [gen.rows(t) for t in all_]
    folds = [want(t, r) for t, r in zip(all_, rows)]
    c.check(isinstance(res, list) and len(res) == len(folds[0]), "number of folds", got=len(res), want=len(folds[0]))
    for f, tt in enumerate(res):
        for side, part in (("train", tt.train), ("test", tt.test)):
            if shape == "list":
                c.check(isinstance(part, list) and len(part) == len(all_), "a list in, lists out")
            if shape == "dict":
                c.check(isinstance(part, dict) and list(part) == keys, "same keys in the same order",
                        got=list(part), want=keys)
            for i in range(len(all_)):
                got = pick(part, shape, keys, i)
                idx = folds[i][f][0 if side == "train" else 1]
                c.check(isinstance(got, TimeSeriesData), "a series", got=type(got))
                g = gen.rows(got) if len(got) else []
                c.check([x[0] for x in g] == sorted(x[0] for x in g), f"{side} part is in time order")
                c.check(sorted(g, key=str) == sorted([rows[i][j] for j in idx], key=str),
                        f"{side} rows of fold {f}", series=i, got=len(got), want=(idx[:1], idx[-1:], len(idx)))
                if len(got):
                    c.check(type(got.value) is type(all_[i].value) and got.time_col_name == "time", "same kind")
                c.event("parts compared")
    if kw.get("multi") and shape != "one":
        c.event("threaded splits")
        c.state("order", tuple(ORDER))
    c.state(shape, len(all_), tuple(len(t) for t in all_), kw.get("multi"))


def frozen(c, all_, f):
    keep = [gen.Frozen(t) for t in all_]
    del ORDER[:]
    res = f()
    c.check(all(k.unchanged(t) for k, t in zip(keep, all_)), "the input series are left alone")
    return res


def simple(c):
    shape, all_, data, keys = inputs(c)
    kw = how(c)
    n0 = min(len(t) for t in all_)
    a = c.choice([("train_frac", c.choice([0.1, 0.5, 0.8, 0.9, 0.29, 0.7])), ("train_size", c.int(1, n0 + 2))])
    b = c.choice([None, None, ("test_frac", c.choice([0.1, 0.2, 0.5, 0.3])), ("test_size", c.int(1, n0 + 2))])
    arg = dict([a] + ([b] if b else []))
    c.note(shape=shape, k=len(all_), n=[len(t) for t in all_], **arg, **kw)

    def want(t, r):
        n = len(r)
        tr = int(n * a[1]) if a[0] == "train_frac" else a[1]
        end = n if b is None else tr + (int(n * b[1]) if b[0] == "test_frac" else b[1])
        return [(list(range(min(tr, n))), list(range(min(tr, n), min(end, n))))]

    res = frozen(c, all_, lambda: D.SimpleDataPartition(**arg, **kw).split(data))
    judge(c, shape, all_, data, keys, res, want, kw)
    c.state("simple", a[0], b and b[0])


def stamps(c):
    shape, all_, data, keys = inputs(c, tz=False)
    kw = how(c)
    t = sorted(set(pd.DatetimeIndex(pd.concat([x.time for x in all_]))))
    off = lambda: pd.Timedelta(c.choice([0, 0, 0, -1, 1, 86400 * 3]), "s")
    e = c.choice(t) + off()
    s = c.choice(t) + off() if c.chance(0.5) else e + pd.Timedelta(c.choice([1, 60]), "s")
    e0 = e - pd.Timedelta(c.choice([1, 60, 86400, 10**6]), "s") if c.chance(0.4) else None
    s1 = s + pd.Timedelta(c.choice([1, 60, 86400, 10**6]), "s") if c.chance(0.4) else None
    conv = c.choice([str, lambda x: x, lambda x: x.to_pydatetime()])
    f = lambda x: None if x is None else conv(x)
    arg = {"train_end": f(e), "test_start": f(s), "train_start": f(e0), "test_end": f(s1)}
    c.note(shape=shape, n=[len(x) for x in all_], **arg, **kw)

    def want(ts, r):
        lo = -10**20 if e0 is None else e0.value
        hi = 10**20 if s1 is None else s1.value
        return [([i for i, x in enumerate(r) if lo <= x[0] <= e.value],
                 [i for i, x in enumerate(r) if s.value <= x[0] <= hi])]

    res = frozen(c, all_, lambda: D.SimpleTimestampDataPartition(**arg, **kw).split(data))
    judge(c, shape, all_, data, keys, res, want, kw)
    bad = pd.Timestamp(e) + pd.Timedelta(c.choice([0, 5]), "s")
    c.raises((ValueError,), "an empty training window", D.SimpleTimestampDataPartition, e, s, train_start=bad)
    c.raises((ValueError,), "an empty test window", D.SimpleTimestampDataPartition, e, s,
             test_end=pd.Timestamp(s) - pd.Timedelta(c.choice([0, 5]), "s"))
    c.state("stamps", e0 is None, s1 is None, (s > e))


def rolling(c):
    shape, all_, data, keys = inputs(c, lo=5)
    kw = how(c)
    tr = c.choice([0.1, 0.25, 0.3, 0.5, 0.6])
    te = c.choice([0.05, 0.1, 0.2, 0.25])
    wi = c.choice([0.0, 0.0, 0.1, 0.15])
    k = c.choice([1, 1, 2, 3, 4, 7, 15])
    const = c.chance(0.5)
    if tr + te + wi >= 1:
        raise Skip
    c.note(shape=shape, n=[len(x) for x in all_], tr=tr, te=te, wi=wi, k=k, const=const, **kw)
    res = frozen(c, all_, lambda: D.RollingOriginDataParition(
        start_train_frac=tr, test_frac=te, window_frac=wi, expanding_steps=k, constant_train_size=const,
        **kw).split(data))
    # the fold positions are read back from the test sets where rounding leaves a choice
    rows = [gen.rows(t) for t in all_]

    def want(t, r):
        n = len(r)
        st, ts, w = int(n * tr), int(n * te), int(n * wi)
        span = n - st - ts - w
        out = []
        for i in range(k):
            x = 0.0 if k == 1 else i * span / (k - 1)
            o = int(math.floor(x + 1e-9))
            if abs(x - round(x)) < 1e-9 and 0 < i < k - 1 and o:
                # an exact multiple may be truncated one below by floating point
                j = [q for q, z in enumerate(all_) if z is t][0]
                got = pick(res[i].train, shape, keys, j) if len(res) == k else None
                if got is not None and len(got):
                    first = (min(rows[j].index(x) for x in gen.rows(got)) if const else len(got) - st)
                    if first == o - 1:
                        o = first
            out.append((list(range(o if const else 0, o + st)), list(range(o + st + w, o + st + w + ts))))
        return out

    judge(c, shape, all_, data, keys, res, want, kw)
    for f in res:
        for i in range(len(all_)):
            a, b = pick(f.train, shape, keys, i), pick(f.test, shape, keys, i)
            if len(a) and len(b):
                c.check(a.time.max() <= b.time.min(), "training ends before testing starts")
    if k > 1:
        last = pick(res[-1].test, shape, keys, 0)
        n = len(rows[0])
        if len(last) and int(n * te):
            c.check(gen.rows(last)[-1][0] == rows[0][-1][0], "the last fold reaches the end of the data")
    c.state("rolling", tr, te, wi, k, const)


def refuse(c):
    kw = how(c)
    S, R = D.SimpleDataPartition, D.RollingOriginDataParition
    t = (ValueError,)
    c.raises(t, "no training size", S, **kw)
    c.raises(t, "two training sizes", S, train_frac=0.5, train_size=3, **kw)
    c.raises(t, "two test sizes", S, train_frac=0.5, test_frac=0.5, test_size=3, **kw)
    c.raises(t, "fraction out of range", S, train_frac=c.choice([-0.5, 1.0, 1.5, 0.0]), **kw)
    c.raises(t, "test fraction out of range", S, train_frac=0.5, test_frac=c.choice([-0.5, 1.0, 1.5, 0.0]), **kw)
    c.raises(t, "size out of range", S, train_size=c.choice([-5, 0]), **kw)
    c.raises(t, "test size out of range", S, train_size=5, test_size=c.choice([-5, 0]), **kw)
    c.raises(t, "training fraction out of range", R, start_train_frac=c.choice([-0.1, 1.1]), test_frac=0.1, **kw)
    c.raises(t, "test fraction out of range", R, start_train_frac=0.1, test_frac=c.choice([-0.1, 1.1]), **kw)
    c.raises(t, "gap out of range", R, start_train_frac=0.1, test_frac=0.1, window_frac=c.choice([-0.1, 1.1]), **kw)
    c.raises(t, "fractions above one", R, start_train_frac=0.6, test_frac=0.3, window_frac=0.2, **kw)
    c.raises(t, "no room to roll", R, start_train_frac=0.5, test_frac=0.5, expanding_steps=2, **kw)
    c.raises(t, "no folds", R, start_train_frac=0.5, test_frac=0.2, expanding_steps=c.choice([0, -2]), **kw)
    c.raises(t, "max_core out of range", S, train_frac=0.5, multi=True, max_core=c.choice([0, -1, 1.5, "2"]))
    p = c.choice([S(train_frac=0.5, **kw), R(0.4, 0.2, **kw), D.SimpleTimestampDataPartition("2021-01-01", "2021-01-02")])
    ts = Slow(series(c, 5))
    for bad in (pd.DataFrame({"time": [1]}), [ts, 3], {"a": ts, "b": None}, (ts, ts), "x", None):
        c.raises(t, "inputs that are not series", p.split, bad)
    c.state("refuse", kw.get("multi"), kw.get("max_core"))


SCENARIOS = [("simple", 300, 4000, simple), ("stamps", 250, 4000, stamps), ("rolling", 350, 6000, rolling),
             ("refuse", 40, 200, refuse)]
NEED = {"parts compared": 2000, "threaded splits": 100}
