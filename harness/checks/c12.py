"""C12: streaming CUSUM models."""
import math

import numpy as np
import pandas as pd
from kats.consts import DataIrregularGranularityError, InternalError, ParameterError, TimeSeriesData
from kats.detectors.cusum_model import CUSUMDetectorModel, CusumScoreFunction, VectorizedCUSUMDetectorModel

import gen
from checks.c11 import reference
from core import Skip

PROPERTY = "C12"
RULE = ("random regular and gappy series with several level shifts and recoveries, random scan, history and step windows "
        "(also unaligned with the grid), score functions, directions and thresholds; streams are cut into random chunks and "
        "the model is serialised and restored between them; distinct = (mode, step, windows, lengths, options)")
ASSUMPTIONS = ["no decision of the underlying test is within rounding of its limit (such cases are set aside)",
               "timestamps are whole seconds and distinct", "no seasonality removal and no magnitude comparison (see C11)"]
NEED = {"alerts raised": 30, "alerts cleared": 5, "scores compared": 3000, "restored models": 20, "columns compared": 30,
        "transformed streams": 10, "alerts beyond the number kept": 2}

DAY = 86400


class Model:
    """The documented state machine, on plain lists of (second, value)."""

    def __init__(self, o):
        self.o = o
        self.cps, self.on, self.mean, self.std, self.way, self.normal = [], False, 0.0, 1.0, None, 0
        self.raised = self.cleared = 0

    def scan(self, rows, last):
        o = self.o
        t = [r[0] for r in rows]
        x = [r[1] for r in rows]
        s = next(i for i, u in enumerate(t) if u >= t[-1] - o["scan_window"])
        if not self.on:
            if len(rows) - s <= 2 or min(x[s:]) == max(x[s:]):  # nothing to locate
                return
            q = {"interest_window": [s, len(rows)], "threshold": o["threshold"], "delta_std_ratio": o["delta_std_ratio"]}
            found = []
            for d in o["change_directions"] or ["increase", "decrease"]:
                r = reference(x, d == "increase", q)
                if r["flagged"]:
                    found.append((r["cp_index"], d))
            if found:
                cp, self.way = min(found, key=lambda f: f[0])
                self.cps = (self.cps + [t[cp]])[-10:]
                self.on = True
                self.raised += 1
                self.mean, self.std = float(np.mean(x[:cp + 1])), float(np.std(x[:cp + 1]))
            return
        cur = float(np.mean(x[s:]))
        if o["adapted_pre_mean"]:
            if s == 0:
                raise Skip()
            self.mean, self.std = float(np.mean(x[:s])), float(np.std(x[:s]))
        dirs = o["change_directions"] or ["increase", "decrease"]
        up = 0 if self.way == "increase" else o["delta_std_ratio"]
        down = o["delta_std_ratio"] if self.way == "increase" else 0
        hi = self.mean + up * self.std if "increase" in dirs else math.inf
        lo = self.mean - down * self.std if "decrease" in dirs else -math.inf
        for lim in (lo, hi):
            if cur == lim and self.std == 0 and all(y == int(y) for y in x):
                continue  # small whole numbers: exact in any order of summation
            if abs(cur - lim) <= 1e-9 * (1 + abs(lim)) and not math.isinf(lim):
                raise Skip()
        off = lo <= cur <= hi or last - self.cps[-1] > 7 * DAY
        if off:
            self.on = False
            self.cleared += 1

    def score(self, part, how):
        out = []
        for u, y in part:
            if not self.on or u <= self.cps[-1]:
                out.append((0.0, 0.0))
                continue
            d = y - self.mean
            by = {"change": 1.0, "percentage_change": self.mean, "z_score": self.std}[how]
            out.append((float(np.float64(d) / np.float64(by)), d))
        return out

    def feed(self, hist, data, step):
        """Scores of the data rows, given the history rows and the step of the grid."""
        o = self.o
        al = hist + data
        w = int(o["scan_window"] / step)
        if w > 1:
            smooth = [(al[i][0], math.fsum(r[1] for r in al[max(0, i - w + 1):i + 1]) / w) for i in range(len(al))]
        else:
            smooth = al
        t = [r[0] for r in al]
        h = len(hist)
        begin = max(t[0] + o["historical_window"], data[0][0])
        if begin > t[-1] or t[-1] - t[0] + step < o["scan_window"]:
            if begin <= t[-1]:
                pass
            return self.score(smooth[h:], o["score_func"])
        a = next(i for i, r in enumerate(data) if r[0] >= begin)
        begin = data[a][0]
        out = [(0.0, 0.0)] * a
        jump = o["step_window"] if o["step_window"] is not None else min(o["scan_window"] / 2, data[-1][0] - data[0][0] + step)
        u = begin
        while u <= min(data[-1][0] + step - jump, data[-1][0]):
            # rows from u up to the next start; the model looks back from there
            b = next(i for i, v in enumerate(t) if v >= u)
            e = max(i for i, v in enumerate(t) if v < u + jump)
            if e >= b:
                s = next(i for i, v in enumerate(t) if v >= u - o["historical_window"])
                self.scan(al[s:e + 1], t[e])
                out += self.score(smooth[b:e + 1], o["score_func"])
            u += jump
        rest = len(data) - len(out)
        if rest > 0:
            b = len(al) - rest
            before = [i for i, v in enumerate(t) if v < t[b] - o["historical_window"]]
            self.scan(al[max(before, default=0):], t[-1])
            out += self.score(smooth[b:], o["score_func"])
        return out


def world(c, n, step):
    """A stream with shifts, recoveries and noise."""
    v = c.rng.normal(0, 1, n) + c.choice([20, 100, 0])
    if c.chance(0.2):  # counts that hardly vary
        v = np.where(c.rng.rand(n) < 0.05, 1.0, 0.0) + c.choice([0, 4])
    level, i = 0.0, 0
    while i < n:
        j = i + c.int(5, max(8, n // 4))
        v[i:j] += level
        level = c.choice([0, 0, 4, 10, -6, 2])
        i = j
    return v


def setting(c, step):
    scan = c.choice([2, 3, 5, 8, 12]) * step + c.choice([0, 0, 0, step // 2])
    hist = c.choice([4, 10, 20, 30]) * step + c.choice([0, 0, 0, step // 3])
    jumps = [j for j in (1, 2, 3, 5) if j * step < scan]
    jump = c.choice([None, c.choice(jumps) * step, c.choice(jumps) * step])
    if jump and jump + step // 2 < scan and c.chance(0.15):
        jump += step // 2
    return dict(scan_window=scan, historical_window=hist, step_window=jump, threshold=c.choice([0.01, 0.1, 1e-4]),
                delta_std_ratio=c.choice([1.0, 0.0, 2.0]), change_directions=c.choice([None, ["increase"], ["decrease"],
                                                                                       ["increase", "decrease"]]),
                score_func=c.choice(["change", "percentage_change", "z_score"]), adapted_pre_mean=c.chance(0.25))


def build(c, o, cls=CUSUMDetectorModel, **kw):
    p = dict(o)
    p["score_func"] = c.choice([o["score_func"], CusumScoreFunction(o["score_func"])])
    if o["change_directions"] and len(o["change_directions"]) == 1 and c.chance(0.3):
        p["change_directions"] = o["change_directions"][0]
    return cls(**p, **kw)


def table(c, t, v, tz, name="value"):
    p = c.rng.permutation(len(t)) if c.chance(0.2) else np.arange(len(t))
    x = pd.DatetimeIndex(t[p])
    if tz:
        x = x.tz_localize("UTC").tz_convert(tz)
    return TimeSeriesData(time=pd.Series(x), value=pd.Series(np.asarray(v)[p], name=name))


def seconds(t):
    return [int(x) for x in t.asi8 // 10 ** 9]


def judge(c, r, data, want, who, col=None):
    size = 1 + np.nanmax(np.abs(np.array(want))) if want else 1
    for ts, k, what in ((r.scores, 0, "score"), (r.anomaly_magnitude_ts, 1, "magnitude")):
        c.check([pd.Timestamp(x) for x in ts.time] == [pd.Timestamp(x) for x in data.time],
                f"{who}: one {what} per data time", got=len(ts), want=len(data))
        got = np.asarray(ts.value if col is None else ts.value[col], dtype=float)
        c.close(got, [w[k] for w in want], f"{who}: {what}", rtol=1e-6, atol=1e-8 * size)
    c.event("scores compared", len(want))


def prepare_stream(c):
    step = c.choice([60, 900, 3600, DAY])
    o = setting(c, step)
    need = int((o["historical_window"] + o["scan_window"]) / step)
    n = c.int(4, 9) if c.chance(0.08) else c.int(max(8, need // 2), need + 50)
    t = gen.start(c) + pd.to_timedelta(np.arange(n) * step, unit="s")
    v = world(c, n, step)
    # steps of whole days are calendar days where clocks change
    tz = c.choice([None, None, None, "UTC", "Asia/Kolkata" if step == DAY else "US/Pacific"])
    return step, o, n, pd.DatetimeIndex(t), v, tz


def stream(c):
    step, o, n, t, v, tz = prepare_stream(c)
    gaps = c.chance(0.25)
    if gaps and n > 12:  # missing rows; the most frequent gap is the step
        drop = 1 + c.rng.choice(n - 2, size=c.int(1, max(1, n // 10)), replace=False)
        keep = np.setdiff1d(np.arange(n), drop)
        t, v = t[keep], v[keep]
        n = len(t)
    h = c.choice([0, 0, c.int(0, n - 3)])
    # cut the data into chunks
    cuts = sorted({h, n} | ({c.int(h + 1, n - 1) for _ in range(c.int(0, 2))} if c.chance(0.5) else set()))
    cuts = [x for i, x in enumerate(cuts) if i == 0 or x - cuts[i - 1] >= 3 or x == n]
    restore = c.chance(0.6)
    c.note(n=n, step=step, history=h, cuts=str(cuts), gaps=gaps, tz=tz, restore=restore, **{k: str(x) for k, x in o.items()})
    c.state("stream", n, step, h, str(cuts), gaps, tz, str(sorted(o.items(), key=str)))
    ref, m = Model(o), build(c, o)
    rows = list(zip(seconds(t), [float(x) for x in v]))
    for a, b in zip(cuts, cuts[1:]):
        data = table(c, t[a:b], v[a:b], tz)
        hist = table(c, t[:a], v[:a], tz) if a else None
        frozen = gen.Frozen(data), hist and gen.Frozen(hist)
        diffs = np.diff(seconds(t[:b]))
        if not len(diffs):
            raise Skip()
        real = int(pd.Series(diffs).value_counts().index[0])
        same = len(set(diffs)) == 1
        if not same and (diffs == real).sum() < max(3, 0.7 * len(diffs)):
            raise Skip()  # no clear step
        if same and real != step or b - a < 1:
            raise Skip()
        bad = (o["scan_window"] < 2 * real or o["historical_window"] < 2 * real
               or (o["step_window"] is not None and (o["step_window"] >= o["scan_window"] or o["step_window"] < real)))
        if bad:
            c.raises((ParameterError,), "windows unsuitable for the step are refused", m.fit_predict, data, hist)
            return
        want = ref.feed(rows[:a], rows[a:b], real)
        r = m.fit_predict(data, hist)
        judge(c, r, data, want, "CUSUM model")
        c.check([int(x) for x in m.cps] == ref.cps, "change points kept", got=m.cps, want=ref.cps)
        c.check(bool(m.alert_fired) == ref.on, "alert state", got=m.alert_fired, want=ref.on)
        c.check(frozen[0].unchanged(data) and (hist is None or frozen[1].unchanged(hist)), "the data are unchanged")
        if restore:
            again = CUSUMDetectorModel(serialized_model=m.serialize())
            c.check(again == m and again.serialize() == m.serialize(), "a restored model equals the original")
            m = again
            c.event("restored models")
    c.event("alerts raised", ref.raised)
    c.event("alerts cleared", ref.cleared)


def recovery(c):
    """A quiet stream, one excursion, and back: the alert is raised and cleared."""
    step = c.choice([60, 3600])
    d = c.choice([3.0, -3.0, 12.0])
    quiet, out, n = c.int(25, 35), c.int(6, 14), 72
    v = np.full(n, float(c.choice([0, 5]))) + (c.rng.normal(0, 0.1, n) if c.chance(0.3) else 0)
    v[quiet:quiet + out] += d + (np.round(c.rng.normal(0, 1, out), 3) if c.chance(0.5) else 0)
    one = ["increase"] if d > 0 else ["decrease"]
    o = dict(scan_window=c.choice([4, 6]) * step, historical_window=c.choice([12, 20]) * step,
             step_window=c.choice([1, 2, 2, 3]) * step, threshold=0.01, delta_std_ratio=c.choice([0.0, 1.0]),
             change_directions=c.choice([one, one, None]), score_func="change", adapted_pre_mean=False)
    t = pd.DatetimeIndex(gen.start(c) + pd.to_timedelta(np.arange(n) * step, unit="s"))
    vec = c.chance(0.4)
    c.note(n=n, quiet=quiet, excursion=out, size=d, vectorised=vec, **{k: str(x) for k, x in o.items()})
    c.state("recovery", quiet, out, d, vec, str(sorted(o.items(), key=str)))
    ref = Model(o)
    want = ref.feed([], list(zip(seconds(t), [float(x) for x in v])), step)
    if vec:
        m = build(c, o, VectorizedCUSUMDetectorModel)
        data = TimeSeriesData(pd.DataFrame({"time": t, "a": v, "b": v}))
        r = m.fit_predict(data)
        for i, name in enumerate("ab"):
            judge(c, r, data, want, "vectorised CUSUM model after an excursion", col=name)
            c.check([int(x) for x in m.cps[i]] == ref.cps, "change points kept", got=m.cps[i], want=ref.cps)
    else:
        m = build(c, o)
        data = table(c, t, v, None)
        judge(c, m.fit_predict(data), data, want, "CUSUM model after an excursion")
        c.check([int(x) for x in m.cps] == ref.cps, "change points kept", got=m.cps, want=ref.cps)
    c.event("alerts raised", ref.raised)
    c.event("alerts cleared", ref.cleared)


def long(c):
    """More alerts than the model keeps: the latest stay."""
    step, k = 3600, c.int(11, 14)
    gap, out = c.int(18, 24), c.int(5, 7)
    n = 30 + k * (gap + out)
    v = c.rng.normal(0, 0.2, n)
    for i in range(k):
        v[30 + i * (gap + out):30 + i * (gap + out) + out] += c.choice([6, 9])
    o = dict(scan_window=4 * step, historical_window=12 * step, step_window=2 * step, threshold=0.01, delta_std_ratio=0.0,
             change_directions=["increase"], score_func=c.choice(["change", "z_score"]), adapted_pre_mean=False)
    t = pd.DatetimeIndex(gen.start(c) + pd.to_timedelta(np.arange(n) * step, unit="s"))
    how = c.choice(["plain", "plain", "transformed", "columns"])
    c.note(n=n, excursions=k, gap=gap, length=out, how=how)
    c.state("long", k, gap, out, how)
    ref = Model(o)
    want = ref.feed([], list(zip(seconds(t), [float(x) for x in v])), step)
    if how == "columns":
        m, data = build(c, o, VectorizedCUSUMDetectorModel), TimeSeriesData(pd.DataFrame({"time": t, "a": v, "b": v}))
        r = m.fit_predict(data)
        for i, name in enumerate("ab"):
            judge(c, r, data, want, "vectorised CUSUM model over a long stream", col=name)
            c.check([int(x) for x in m.cps[i]] == ref.cps, "change points kept", got=m.cps[i], want=ref.cps)
    else:
        m, data = build(c, o, vectorized=how == "transformed"), table(c, t, v, None)
        judge(c, m.fit_predict(data), data, want, "CUSUM model over a long stream")
        c.check([int(x) for x in m.cps] == ref.cps, "change points kept", got=m.cps, want=ref.cps)
    c.event("alerts beyond the number kept", max(0, ref.raised - 10))
    c.event("alerts raised", ref.raised)
    c.event("alerts cleared", ref.cleared)


def transformed(c):
    """vectorized=True gives the same scores and state, faster."""
    step, o, n, t, v, tz = prepare_stream(c)
    if o["step_window"] is None:
        o["step_window"] = step
    o["scan_window"] -= o["scan_window"] % step
    o["historical_window"] -= o["historical_window"] % step
    o["step_window"] -= o["step_window"] % step
    if o["scan_window"] <= o["step_window"]:
        raise Skip()
    h = c.choice([0, c.int(0, n - 3)])
    c.note(n=n, step=step, history=h, **{k: str(x) for k, x in o.items()})
    c.state("transformed", n, step, h, str(sorted(o.items(), key=str)))
    rows = list(zip(seconds(t), [float(x) for x in v]))
    ref, m = Model(o), build(c, o, vectorized=True)
    data = table(c, t[h:], v[h:], None)
    hist = table(c, t[:h], v[:h], None) if h else None
    want = ref.feed(rows[:h], rows[h:], step)
    r = m.fit_predict(data, hist)
    judge(c, r, data, want, "transformed CUSUM model")
    c.check([int(x) for x in m.cps] == ref.cps, "change points kept", got=m.cps, want=ref.cps)
    c.check(bool(m.alert_fired) == ref.on, "alert state", got=m.alert_fired, want=ref.on)
    c.event("transformed streams", bool(m.vectorized_trans_flag))
    c.event("alerts raised", ref.raised)
    c.event("alerts cleared", ref.cleared)


def columns(c):
    step, o, n, t, _, tz = prepare_stream(c)
    k = c.choice([2, 3, 4])
    cols = {x: world(c, n, step) for x in gen.names(c, k)}
    h = c.choice([0, c.int(0, n - 3)])
    c.note(n=n, step=step, history=h, columns=k, tz=tz, **{q: str(x) for q, x in o.items()})
    c.state("columns", n, step, h, k, tz, str(sorted(o.items(), key=str)))
    x = t if not tz else t.tz_localize("UTC").tz_convert(tz)
    full = pd.DataFrame(dict(time=x, **cols))
    data, hist = TimeSeriesData(full.iloc[h:].reset_index(drop=True)), None
    if h:
        hist = TimeSeriesData(full.iloc[:h].copy())
    frozen = gen.Frozen(data)
    m = build(c, o, VectorizedCUSUMDetectorModel)
    wants, alive = {}, False
    for name, v in cols.items():
        ref = Model(o)
        rows = list(zip(seconds(t), [float(y) for y in v]))
        wants[name] = (ref.feed(rows[:h], rows[h:], step), ref)
    r = m.fit_predict(data, hist)
    for i, (name, (want, ref)) in enumerate(wants.items()):
        judge(c, r, data, want, f"vectorised CUSUM model, column {name}", col=name)
        c.check([int(y) for y in m.cps[i]] == ref.cps, "change points kept", got=m.cps[i], want=ref.cps, column=name)
        c.check(bool(m.alert_fired[name]) == ref.on, "alert state", column=name)
        c.event("columns compared")
        c.event("alerts raised", ref.raised)
        c.event("alerts cleared", ref.cleared)
    c.check(frozen.unchanged(data), "the data are unchanged")


def refusals(c):
    c.raises((ParameterError,), "windows are needed", CUSUMDetectorModel)
    c.raises((ParameterError,), "windows are needed", CUSUMDetectorModel, scan_window=10)
    c.raises((ParameterError,), "windows are needed", VectorizedCUSUMDetectorModel, historical_window=10)
    n = c.int(12, 40)
    t = pd.date_range(gen.start(c), periods=n, freq="H")
    ts = TimeSeriesData(time=pd.Series(t), value=pd.Series(c.rng.normal(0, 1, n)))
    two = TimeSeriesData(pd.DataFrame({"time": t, "a": c.rng.normal(0, 1, n), "b": c.rng.normal(0, 1, n)}))
    c.state("refusals", n)
    for cls, d in ((CUSUMDetectorModel, ts), (VectorizedCUSUMDetectorModel, two)):
        for s, h, w in ((3599, 36000, None), (7199, 36000, None), (36000, 7199, None), (36000, 36000, 36000),
                        (36000, 36000, 40000), (36000, 36000, 3599)):
            m = cls(scan_window=s, historical_window=h, step_window=w)
            c.raises((ParameterError,), "unsuitable windows are refused", m.fit_predict, d)
        m = cls(scan_window=36000, historical_window=36000)
        c.raises((InternalError,), "predicting alone is refused", m.predict, d)
    gaps = np.cumsum(np.arange(1, n + 1) ** 2)
    odd = TimeSeriesData(time=pd.Series(gen.start(c) + pd.to_timedelta(gaps, unit="s")), value=pd.Series(c.rng.normal(0, 1, n)))
    c.raises((DataIrregularGranularityError,), "data without a step are refused",
             CUSUMDetectorModel(scan_window=360, historical_window=360).fit_predict, odd)


SCENARIOS = [
    ("stream", 100, 5000, stream),
    ("recovery", 24, 600, recovery),
    ("long", 5, 200, long),
    ("transformed", 40, 1500, transformed),
    ("columns", 24, 1000, columns),
    ("refusals", 4, 20, refusals),
]
