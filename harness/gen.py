"""Input generators shared by the checks.  All randomness comes from the case."""
import numpy as np
import pandas as pd

FREQS = ["D", "H", "15min", "5min", "T", "S", "2H", "3D", "W-SUN", "MS"]
TICKS = ["D", "H", "15min", "5min", "T", "S", "2H", "12H"]
TZS = ["UTC", "US/Pacific", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe"]
NAMES = ["value", "y", "a b", "Value", "x1", "v_0", "target", "日"]
TIME_NAMES = ["time", "ds", "Timestamp", "t", "index", "date time"]


def start(c):
    base = c.choice(["2019-01-01", "2020-02-27", "2021-12-30 21:00", "2018-03-10 23:30",
                     "2024-02-28", "1999-12-31", "2021-10-30"])
    return pd.Timestamp(base)


def regular(c, n, freq=None, tz=None):
    freq = freq or c.choice(FREQS)
    return pd.date_range(start(c), periods=n, freq=freq, tz=tz)


def irregular(c, n, dup=False):
    """Distinct (unless dup) timestamps, sorted, whole seconds."""
    gaps = c.rng.randint(0 if dup else 1, c.choice([3, 100, 86400]) + 1, size=max(n - 1, 0))
    off = np.concatenate([[0], np.cumsum(gaps)]) if n else np.array([], dtype=int)
    return pd.DatetimeIndex(start(c) + pd.to_timedelta(off, unit="s"))


def values(c, n, kind=None):
    kind = kind or c.choice(["normal", "int", "const", "big", "small", "zeros", "steps", "nan", "mixed"])
    r = c.rng
    if kind == "normal":
        v = r.normal(c.choice([0, 10, -5]), c.choice([0.1, 1, 50]), n)
    elif kind == "int":
        v = r.randint(-20, 21, n)
    elif kind == "const":
        v = np.full(n, float(r.randint(-3, 4)))
    elif kind == "big":
        v = r.normal(0, 1, n) * 1e12
    elif kind == "small":
        v = r.normal(0, 1, n) * 1e-9
    elif kind == "zeros":
        v = np.where(r.rand(n) < 0.5, 0.0, r.normal(0, 1, n))
    elif kind == "steps":
        v = np.repeat(r.normal(0, 3, n // 3 + 1), 3)[:n]
    elif kind == "nan":
        v = r.normal(0, 1, n)
        v[r.rand(n) < 0.3] = np.nan
    elif kind == "pos":
        v = np.abs(r.normal(10, 3, n)) + 0.1
    else:
        v = r.normal(0, 1, n) + np.where(r.rand(n) < 0.1, 1000, 0)
    return v


def names(c, k):
    idx = c.rng.permutation(len(NAMES))[:k]
    return [NAMES[i] for i in idx]


def frame_equal(a, b):
    """Identical frames: labels, dtypes and values (NaN equals NaN)."""
    if list(a.columns) != list(b.columns) or not a.index.equals(b.index):
        return False
    return all(str(a[k].dtype) == str(b[k].dtype) and a[k].equals(b[k]) for k in a.columns)


class Frozen:
    """A deep snapshot of a TimeSeriesData, to see whether something changed it."""

    def __init__(self, ts):
        self.time = ts.time.copy()
        self.value = ts.value.copy()
        self.name = ts.time_col_name

    def unchanged(self, ts):
        if ts.time_col_name != self.name or not ts.time.equals(self.time):
            return False
        if type(ts.value) is not type(self.value):
            return False
        if isinstance(self.value, pd.Series):
            return ts.value.equals(self.value) and ts.value.name == self.value.name
        return frame_equal(ts.value, self.value)


def rows(ts):
    """[(ns instant, tuple of values)] in the series' own order."""
    t = pd.DatetimeIndex(ts.time).asi8
    v = np.asarray(ts.value, dtype=float)
    if v.ndim == 1:
        v = v.reshape(-1, 1)
    return [(int(a), tuple(None if np.isnan(x) else float(x) for x in r)) for a, r in zip(t, v)]
