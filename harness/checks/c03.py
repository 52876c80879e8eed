"""C03: arithmetic on series works point by point."""
import operator

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData

import gen

PROPERTY = "C03"
RULE = ("random pairs of series with the same distinct timestamps (1-3 shared and own columns, different "
        "time and value names, zeros, NaN, infinities by division, integers, zones) and scalars, under + - * /; "
        "distinct = (operator, operand shape, value kinds, zone, time names) signature")
ASSUMPTIONS = ["timestamps within one series are distinct and sorted"]
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}


def npop(op, a, b):
    with np.errstate(all="ignore"):
        return {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide}[op](
            np.asarray(a, dtype=float), np.asarray(b, dtype=float))


def series(c, t, cols, name):
    df = pd.DataFrame({name: t})
    for k in cols:
        df[k] = gen.values(c, len(t), c.choice(["normal", "int", "nan", "zeros", "big", "const"]))
    return TimeSeriesData(df, time_col_name=name)


def judge(c, res, t, name, want, label):
    c.event("results compared")
    c.check(list(pd.DatetimeIndex(res.time).asi8) == list(pd.DatetimeIndex(t).asi8), label + ": timestamps",
            got=len(res), want=len(t))
    c.check(str(res.tz()) == str(pd.DatetimeIndex(t).tz), label + ": zone")
    c.check(res.time_col_name == name, label + ": time name", got=res.time_col_name, want=name)
    if len(want) == 1:
        k = list(want)[0]
        c.check(res.is_univariate() and res.value.name == k, label + ": name", got=getattr(res.value, "name", None), want=k)
        c.close(res.value.values, want[k], label + ": values", rtol=1e-12, atol=0)
        got_lo, got_hi = [res.min], [res.max]
        keys = [k]
    else:
        c.check(set(res.value.columns) == set(want) and res.value.shape[1] == len(want), label + ": columns",
                got=list(res.value.columns), want=list(want))
        for k in want:
            c.close(res.value[k].values, want[k], label + ": values", rtol=1e-12, atol=0, col=k)
        keys = list(want)
        got_lo, got_hi = [res.min[k] for k in keys], [res.max[k] for k in keys]
    for k, lo, hi in zip(keys, got_lo, got_hi):
        w = np.asarray(want[k], dtype=float)
        nan = np.isnan(w).all()
        c.close(float(lo), np.nan if nan else np.nanmin(w), label + ": min", rtol=1e-12, atol=0)
        c.close(float(hi), np.nan if nan else np.nanmax(w), label + ": max", rtol=1e-12, atol=0)


def pairs(c):
    n = c.choice([1, 2, 3, 7, 25])
    t = gen.regular(c, n) if c.chance(0.5) else gen.irregular(c, n)
    if c.chance(0.3):
        t = t.tz_localize("UTC").tz_convert(c.choice(gen.TZS))
    k = c.choice([1, 1, 2, 3])
    shared = gen.names(c, k)
    name = c.choice(gen.TIME_NAMES)
    name2 = name if c.chance(0.5) else c.choice(gen.TIME_NAMES)
    own1 = ["only1"] if c.chance(0.2) else []
    own2 = ["only2"] if c.chance(0.2) else []
    a = series(c, t, shared + own1, name)
    b = series(c, t, [shared[i] for i in c.rng.permutation(k)] + own2, name2)
    if name2 != name:
        # the clock of a series is its contents, whatever its column is called
        b.time.name = a.time.name
    fa, fb = gen.Frozen(a), gen.Frozen(b)

    def col(ts, key):
        return ts.value.values if ts.is_univariate() else ts.value[key].values

    for op in OPS:
        want = {key: npop(op, col(a, key), col(b, key)) for key in shared}
        for key in own1 + own2:
            want[key] = np.full(n, np.nan)
        res = OPS[op](a, b)
        judge(c, res, t, name, want, f"a {op} b")
        c.check(fa.unchanged(a) and fb.unchanged(b), "operands are left as they were", op=op)
        c.event("operator " + op)
    c.note(n=n, shared=shared, own=own1 + own2, name=name, name2=name2, tz=t.tz)
    c.state(n, k, own1, own2, name == name2, t.tz, [str(a.value.dtype) if k == 1 and not own1 else ""])


def scalars(c):
    n = c.choice([1, 2, 3, 7, 25])
    t = gen.regular(c, n) if c.chance(0.5) else gen.irregular(c, n)
    if c.chance(0.3):
        t = t.tz_localize("UTC").tz_convert(c.choice(gen.TZS))
    name = c.choice(gen.TIME_NAMES)
    cols = gen.names(c, 1)
    a = series(c, t, cols, name)
    fa = gen.Frozen(a)
    s = c.choice([0, 1, -2, 0.5, 3.0, -1e6, np.float64(2.5), 7])
    for op in OPS:
        judge(c, OPS[op](a, s), t, name, {cols[0]: npop(op, a.value.values, np.full(n, float(s)))}, f"a {op} {s}")
        c.check(fa.unchanged(a), "the operand is left as it was", op=op)
        c.event("scalar operator " + op)
    c.note(n=n, scalar=float(s), name=name)
    c.state(n, float(s), str(a.value.dtype), t.tz is None)


def refused(c):
    n = c.int(2, 12)
    t = gen.regular(c, n, "D")
    cols = gen.names(c, 1)
    a = series(c, t, cols, "time")
    kind = c.choice(["shifted", "shorter", "one moved", "text", "none", "list"])
    op = c.choice(sorted(OPS))
    if kind == "shifted":
        b = series(c, t + pd.Timedelta(1, "D"), cols, "time")
    elif kind == "shorter":
        b = a[: n - 1]
    elif kind == "one moved":
        u = list(t)
        u[c.int(0, n - 1)] += pd.Timedelta(1, "s")
        b = series(c, pd.DatetimeIndex(u), cols, "time")
    else:
        b = {"text": "x", "none": None, "list": [1.0] * n}[kind]
        c.raises((TypeError,), f"a {op} {kind}", OPS[op], a, b)
        c.state(kind, op)
        return
    c.raises((ValueError,), f"different timestamps ({kind})", OPS[op], a, b)
    c.raises((ValueError,), f"different timestamps ({kind}), swapped", OPS[op], b, a)
    c.note(kind=kind, op=op, n=n)
    c.state(kind, op)


SCENARIOS = [("pairs", 260, 6000, pairs), ("scalars", 200, 5000, scalars), ("refused", 150, 2000, refused)]
NEED = {"results compared": 800, "refusals observed": 50}
