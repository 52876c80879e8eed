"""Helpers shared by the forecasting checks."""
import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData

import gen

FREQS = ["D", "H", "15min", "T", "2H", "3D", "W-SUN", "MS"]
COLS = ["time", "fcst", "fcst_lower", "fcst_upper"]


def series(c, n, freq=None, kind=None, name=None):
    """A regular series on times aligned with its step, rows given in a random order."""
    freq = freq or c.choice(FREQS)
    t = pd.date_range(gen.start(c).normalize(), periods=n, freq=freq)
    v = kind if isinstance(kind, np.ndarray) else np.asarray(gen.values(c, n, kind), dtype=float)
    p = c.rng.permutation(n) if c.chance(0.3) else np.arange(n)
    ts = TimeSeriesData(time=pd.Series(t[p]), value=pd.Series(v[p], name=name or c.choice(["value", "y", "q"])))
    return ts, t, v, freq


def future(last, steps, freq):
    off = pd.tseries.frequencies.to_offset(freq)
    return [last + off * k for k in range(1, steps + 1)]


def dates(c, df, want, what="forecast times are the next steps of the grid", col="time"):
    got = [pd.Timestamp(x) for x in (df[col] if col else df.index)]
    c.check(got == list(want), what, got=got[:4] + got[-2:], want=list(want)[:4] + list(want)[-2:],
            n=(len(got), len(want)))


def columns(c, df, cols=COLS):
    c.check(isinstance(df, pd.DataFrame) and list(df.columns) == list(cols), "columns of the forecast",
            got=list(getattr(df, "columns", [])), want=list(cols))


def ordered(c, df, slack=1e-9):
    lo, f, up = (np.asarray(df[k], dtype=float) for k in ("fcst_lower", "fcst", "fcst_upper"))
    m = slack * (1 + np.abs(f))
    c.check(np.all(~(lo > f + m)) and np.all(~(f > up + m)), "lower bound <= forecast <= upper bound",
            lower=lo[:5], fcst=f[:5], upper=up[:5])
