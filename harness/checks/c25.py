"""C25: nowcasting: features that look back only, and models trained on what lies ahead."""
import contextlib
import math

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
from kats.models.nowcasting import dynamic_nowcasting, nowcasting, nowcastingplus
from kats.models.nowcasting import feature_extraction as F
from sklearn.ensemble import GradientBoostingRegressor, RandomForestRegressor
from sklearn.linear_model import LassoCV, LinearRegression

import gen
from core import Skip

PROPERTY = "C25"
RULE = ("random series (constant stretches, zeros, negative values, missing ones for the plain features) through every feature with random "
        "lengths and columns, and through the three nowcasting models with random steps; distinct = (feature or model, size, setting)")
ASSUMPTIONS = ["the regressors of scikit-learn are trusted: what they are trained on and asked for is judged",
               "the models with a seasonal curve are judged one step ahead, on series whose last clock time occurs before",
               "models get a column named y at times named time, as documented"]
JOBS = 8


def ewm(x, span, least, adjust=True, alpha=None):
    """Exponentially weighted mean of the numbers so far; None in x is missing (weights keep decaying)."""
    a = alpha if alpha else 2 / (span + 1)
    out, seen, num, den = [], 0, 0.0, 0.0
    for y in x:
        num, den = num * (1 - a), den * (1 - a)
        if not math.isnan(y):
            w = 1.0 if adjust or not seen else a
            num, den, seen = num + w * y, den + w, seen + 1
            if not adjust and seen == 1:
                num, den = y, 1.0
        out.append(num / den if seen >= max(least, 1) else math.nan)
    return out


def div(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.nan
    if b == 0:
        return math.nan if a == 0 else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def roc(v, n):
    return [div(v[i] - v[i - n + 1], v[i - n + 1]) if 0 <= i - n + 1 else math.nan for i in range(len(v))]


def mom(v, n):
    return [v[i] - v[i - n] if i >= n else math.nan for i in range(len(v))]


def ma(v, n):
    return [math.nan if not n or i < n - 1 else math.fsum(v[i - n + 1:i + 1]) / n for i in range(len(v))]


def lag(v, n):
    return [v[i - n] if 0 <= i - n < len(v) else math.nan for i in range(len(v))]


def macd(v, fast, slow):
    a, b = ewm(v, fast, slow - 1), ewm(v, slow, slow - 1)
    d = [p - q for p, q in zip(a, b)]
    s = ewm(d, 9, 8)
    return [d, s, [p - q for p, q in zip(d, s)]]


def bands(v, n):
    m = ma(v, n)
    sd = [math.nan if i < n - 1 else math.sqrt(math.fsum((y - m[i]) ** 2 for y in v[i - n + 1:i + 1]) / (n - 1)) for i in range(len(v))]
    return [[div(4 * s, q) for s, q in zip(sd, m)], [div(y - q + 2 * s, 4 * s) for y, q, s in zip(v, m, sd)]]


def trix(v, n):
    e = ewm(ewm(ewm(v, n, n - 1), n, n - 1), n, n - 1)
    return [0.0] + [div(e[i] - e[i - 1], e[i - 1]) for i in range(1, len(v))]


def tsi(v, r, s):
    d = mom(v, 1)
    top, bottom = (ewm(ewm(x, r, r - 1), s, s - 1) for x in (d, [abs(y) for y in d]))
    return [div(a, b) for a, b in zip(top, bottom)]


def rsi(v, n):
    d = mom(v, 1)
    up = ewm([y if y > 0 else 0.0 for y in d], None, n, adjust=False, alpha=1 / n)
    dn = ewm([-y if y < 0 else 0.0 for y in d], None, n, adjust=False, alpha=1 / n)
    return [100.0 if q == 0 else math.nan if math.isnan(p) else 100 - 100 / (1 + p / q) for p, q in zip(up, dn)]


def values(c, n, missing=False):
    kind = c.choice(["normal", "normal", "walk", "int", "flat", "up"])
    v = {"normal": lambda: c.rng.normal(c.choice([0, 20]), c.choice([0.5, 3]), n), "walk": lambda: 50 + np.cumsum(c.rng.normal(0, 1, n)),
         "int": lambda: c.rng.randint(-3, 4, n).astype(float), "flat": lambda: np.repeat(c.rng.randint(1, 9, n // 8 + 1), 8)[:n].astype(float),
         "up": lambda: np.cumsum(np.abs(c.rng.normal(0, 1, n))) + 1}[kind]()
    if missing and c.chance(0.3):
        v[c.rng.rand(n) < 0.1] = np.nan
    return v


def features(c):
    what = c.choice(["ROC", "MOM", "MA", "LAG", "MACD", "BBANDS", "TRIX", "EMA", "TSI", "RSI"])
    n = c.int(1 if what != "TRIX" else 2, 70)
    v = values(c, n, what in ("ROC", "MOM", "MA", "LAG"))
    col = c.choice(["y", "y", "other"])
    df = pd.DataFrame({"time": gen.regular(c, n), col: v, "z" if col == "y" else "y": c.rng.normal(0, 1, n)})
    if c.chance(0.3) and what not in ("MA", "TRIX", "RSI"):
        df.index = np.arange(7, 7 + n)
    k = c.int(1, 12)
    x = [float(y) for y in v]
    kw = {} if col == "y" else {"column": col}
    if what == "ROC":
        args, want = (k,), [roc(x, k)]
    elif what == "MOM":
        args, want = (k,), [mom(x, k)]
    elif what == "MA":
        k = c.int(0, 12)
        args, want = (k,), [ma(x, k)]
    elif what == "LAG":
        k = c.int(-5, 12)
        args, want = (k,), [lag(x, k)]
    elif what == "MACD":
        fast = c.int(2, 12)
        slow = fast + c.int(1, 12)
        args, want = (fast, slow), macd(x, fast, slow)
    elif what == "BBANDS":
        k = max(k, 2)
        args, want = (k,), bands(x, k)
    elif what == "TRIX":
        k = max(k, 2)
        args, want = (k,), [trix(x, k)]
    elif what == "EMA":
        k = max(k, 2)
        args, want = (k,), [ewm(x, k, k - 1)]
    elif what == "TSI":
        k, s = max(k, 2), c.int(2, 8)
        args, want = (k, s), [tsi(x, k, s)]
    else:
        args, want = (k,), [rsi(x, k)]
    keep = df.copy(deep=True)
    out = getattr(F, what)(df, *args, **kw)
    c.note(feature=what, args=args, n=n, column=col)
    c.check(gen.frame_equal(df, keep), "the caller's frame changes")
    c.check(len(out) == n and out.index.equals(keep.index), "a feature has another length or index", got=len(out), want=n)
    c.check(list(out.columns[:3]) == list(keep.columns) and gen.frame_equal(out[list(keep.columns)], keep), "a feature changes the other columns",
            got=list(out.columns))
    new = list(out.columns[3:])
    c.check(len(new) == len(want), "another number of features is added", got=new)
    if what in ("ROC", "MOM", "MA", "LAG"):
        c.check(new == [("" if col == "y" else col + "_") + f"{what}_{k}"], "name of the feature", got=new)
    if what == "MACD":
        c.check(new == [("" if col == "y" else col + "_") + f"{p}_{args[0]}_{args[1]}" for p in ("MACD", "MACDsign", "MACDdiff")], "names of the features",
                got=new)
    for name, w in zip(new, want):
        g = np.asarray(out[name], dtype=float)
        w = np.array(w, dtype=float)
        # rounding decides quotients of a spread or mean that is zero but for rounding
        odd = np.zeros(n, bool)
        if what in ("BBANDS", "TRIX", "TSI"):
            odd = ~np.isfinite(w) | ~np.isfinite(g) | (np.abs(w) > 1e5) | (np.abs(g) > 1e5)
            odd &= ~(np.isnan(w) & np.isnan(g))
            if what != "TRIX":
                s = pd.Series(x).rolling(args[0] if what == "BBANDS" else 3, min_periods=1).std().fillna(1).to_numpy()
                odd |= s < 1e-6
            else:
                odd |= np.abs(np.array(ewm(ewm(ewm(x, k, 1), k, 1), k, 1))) < 1e-3
        if what == "RSI" and min(np.abs(np.diff(x)).tolist() + [1]) < 1e-12 and not all(y == int(y) for y in x):
            odd[:] = True
        first = np.arange(n) < (0 if what in ("ROC", "MOM", "MA", "LAG") else 1)
        odd |= first & ~np.isfinite(g) & ~np.isfinite(w)
        c.close(g[~odd], w[~odd], "a feature is not its definition", rtol=1e-6, atol=1e-7, feature=name)
        c.event("feature values judged", int((~odd).sum()))
    # no feature looks ahead
    if n > 3 and not (what == "LAG" and k < 0):
        m = c.int(2, n - 1)
        cut = getattr(F, what)(keep.iloc[:m].copy(), *args, **kw)
        for name in new:
            c.close(np.asarray(cut[name], dtype=float), np.asarray(out[name], dtype=float)[:m], "a feature looks ahead", rtol=1e-6, atol=1e-7,
                    feature=name)
        c.event("features of beginnings")
    c.state(what, args, n, col)


@contextlib.contextmanager
def watch(*classes):
    """What the regressors are trained on and asked for."""
    seen, old = [], [(k, k.__dict__.get("fit"), k.fit) for k in classes]

    def wrap(k, f):
        def fit(self, X, y, *a, **kw):
            seen.append((k.__name__, np.array(X, dtype=float), np.array(y, dtype=float).ravel()))
            return f(self, X, y, *a, **kw)
        return fit
    for k, _, f in old:
        k.fit = wrap(k, f)
    try:
        yield seen
    finally:
        for k, own, _ in old:
            if own is None:
                del k.fit
            else:
                k.fit = own


def rows_sorted(X, y):
    a = np.column_stack([X, y])
    return a[np.lexsort(a.T[::-1])]


def data(c, n, zero, freq=None):
    kind = c.choice(["walk", "season", "noise"])
    i = np.arange(n)
    v = {"walk": lambda: 200 + np.cumsum(c.rng.normal(0, 1, n)), "season": lambda: 50 + 10 * np.sin(2 * np.pi * i / 24) + c.rng.normal(0, 1, n),
         "noise": lambda: c.rng.normal(20, 2, n)}[kind]()
    if zero:
        v[c.rng.choice(n, c.int(1, 3), replace=False)] = 0.0
    t = pd.date_range(c.choice(["2020-01-01", "2019-12-31 13:00"]), periods=n, freq=freq or c.choice(["H", "D", "15min", "2H"]))
    return TimeSeriesData(pd.DataFrame({"time": t, "y": v})), t, [float(x) for x in v]


def steps_of(m):
    m.feature_extraction()
    m.label_extraction()
    m.fit()


def basic(c):
    n, step = c.int(45, 120), c.int(1, 8)
    zero = c.chance(0.3)
    ts, t, v = data(c, n, zero)
    snap = gen.Frozen(ts)
    m = nowcasting.NowcastingModel(ts, nowcasting.NowcastingParams(step=step))
    table = {f"ROC_{k}": roc(v, k) for k in (10, 15, 20, 25, 30)}
    table.update({f"LAG_{k}": lag(v, k) for k in (10, 15, 20, 25, 30)})
    X = np.array([table[k] for k in table]).T
    good = np.isfinite(X).all(axis=1)
    use = [i for i in range(n) if good[i] and i + step < n]
    c.note(n=n, step=step, zero=zero, rows=len(use))
    if len(use) < 5:
        raise Skip
    with watch(GradientBoostingRegressor) as seen:
        steps_of(m)
    c.check(len(seen) == 1, "the model is not trained once", got=len(seen))
    c.check(sorted(m.feature_names) == sorted(table), "the features are not the documented ones", got=m.feature_names)
    order = [list(table).index(k) for k in m.feature_names]
    _, gx, gy = seen[0]
    c.check(gx.shape == (len(use), 10), "the model is not trained on every row whose label is known", got=gx.shape, want=(len(use), 10))
    c.close(rows_sorted(gx, gy), rows_sorted(X[use][:, order], np.array([v[i + step] for i in use])),
            "the model is not trained on the features and the value as many steps ahead", rtol=1e-9, atol=1e-9)
    c.event("rows trained on", len(use))
    rows = [i for i in range(n) if good[i]][-step:]
    ask = pd.DataFrame(X[rows][:, order], columns=m.feature_names)
    want = m.model.predict(ask)
    got = m.predict()
    c.close(got, want, "the forecasts are not those for the last rows", rtol=1e-9)
    c.event("forecasts judged", len(rows))
    # restored elsewhere
    other = nowcasting.NowcastingModel(ts, nowcasting.NowcastingParams(step=step))
    other.feature_extraction()
    other.load_model(m.save_model())
    c.close(other.predict(), want, "a restored model forecasts otherwise", rtol=1e-9)
    c.close(m.predict(df=ask), want, "given rows are forecast otherwise", rtol=1e-9)
    else_ = pd.DataFrame(X[use][c.rng.randint(len(use), size=c.int(1, 6))][:, order] * 1.1, columns=m.feature_names)
    c.close(m.predict(df=else_[list(c.rng.permutation(m.feature_names))]), m.model.predict(else_), "other rows given are not forecast by their features", rtol=1e-9)
    c.event("models restored")
    c.check(snap.unchanged(ts), "the caller's series changes")
    c.state("basic", n, step, zero)


def curve(t, v):
    x = np.array([60.0 * s.hour + s.minute for s in t])
    X = pd.DataFrame({f"poly_{d}": x ** d for d in range(6)})
    return LinearRegression().fit(X, pd.Series(v)).predict(X), x


def seasonal(c):
    plus = c.chance(0.5)
    n = c.int(60, 140)
    zero = c.chance(0.35)
    ts, t, v = data(c, n, zero, c.choice(["H", "H", "D", "2H"]))
    snap = gen.Frozen(ts)
    if plus:
        m = nowcastingplus.NowcastingPlusModel(ts, nowcastingplus.NowcastingParams(step=1))
        table = {f"MOM_{k}": mom(v, k) for k in (10, 15, 20, 25, 30)}
        table.update({f"ROC_{k}": roc(v, k) for k in (10, 15, 20, 25, 30)})
        table.update({f"LAG_{k}": lag(v, k) for k in (1, 2, 3, 4, 5)})
        table.update({f"MA_{k}": ma(v, k) for k in (10, 20, 30)})
    else:
        m = dynamic_nowcasting.NowcastingModel(ts, dynamic_nowcasting.NowcastingParams(step=1))
        if zero:
            table = {f"MOM_{k}": mom(v, k) for k in (10, 15, 20, 25, 30)}
            table.update({f"LAG_{k}": lag(v, k) for k in (10, 15, 20, 25, 30)})
        else:
            table = {f"ROC_{k}": roc(v, k) for k in (10, 15, 20, 25, 30)}
            table.update({f"MOM_{k}": mom(v, k) for k in (10, 15, 20, 25, 30)})
            table.update({f"LAG_{k}": lag(v, k) for k in (1, 2, 3, 4, 5, 20)})
            table.update({f"MA_{k}": ma(v, k) for k in (10, 20, 30, 40)})
    X = np.array([table[k] for k in table]).T
    good = [i for i in range(n) if np.isfinite(X[i]).all()]
    c.note(plus=plus, n=n, zero=zero, rows=len(good))
    if len(good) < 25:
        raise Skip
    s, x = curve(t, v)
    before = [i for i in range(n - 1) if x[i] == x[-1]]
    if not before:
        raise Skip
    random_forest = not plus and not any(v[i] == 0 for i in good)
    if not plus and zero and random_forest:
        raise Skip  # zeros only among the first rows
    with watch(LassoCV, RandomForestRegressor, LinearRegression) as seen:
        steps_of(m)
    seen = [q for q in seen if q[1].shape[1] == len(table)]
    c.check(len(seen) == 1, "the model is not trained once", got=[q[1].shape for q in seen])
    kind, gx, gy = seen[0]
    c.check(kind == ("LassoCV" if plus else "RandomForestRegressor" if random_forest else "LinearRegression"), "another kind of model is trained", got=kind)
    c.check(sorted(m.feature_names) == sorted(table), "the features are not the documented ones", got=m.feature_names)
    order = [list(table).index(k) for k in m.feature_names]
    # consecutive rows that can be used: the label is the change of the remainder to the next of them
    Z = X[good][:, order]
    if plus:
        sd = Z.std(axis=0)
        sd[sd == 0] = 1
        Z = (Z - Z.mean(axis=0)) / sd
    elif random_forest:
        w = Z.max(axis=0) - Z.min(axis=0)
        w[w == 0] = 1
        Z = (Z - Z.min(axis=0)) / w
    d = np.array([v[i] - s[i] for i in good])
    y = d[:-1] - d[1:]
    c.check(gx.shape == (len(good) - 1, len(table)), "the model is not trained on every row whose label is known", got=gx.shape, want=len(good) - 1)
    if random_forest:
        # the labels are transformed monotonically to a standard shape
        c.close(gx, Z[:-1], "the model is not trained on the scaled features", rtol=1e-6, atol=1e-8)
        c.check(abs(gy.mean()) < 1e-6 and (abs(gy.std() - 1) < 1e-6 or np.ptp(y) < 1e-9), "the labels are not standardised", got=(gy.mean(), gy.std()))
        o = np.argsort(y, kind="stable")
        c.check((np.diff(gy[o]) >= -1e-9 * (1 + np.abs(gy[o][1:]))).all() or np.ptp(y) < 1e-9, "the labels are not in the order of the changes")
    else:
        c.close(gx, Z[:-1], "the model is not trained on the (scaled) features", rtol=1e-6, atol=1e-8)
        c.close(gy, y, "the labels are not the changes of the remainder", rtol=1e-6, atol=1e-7)
    c.event("rows trained on", len(good) - 1)
    try:
        got = np.asarray(m.predict(), dtype=float)
    except IndexError:
        raise Skip  # the last clock time is not recognised (rounding of the curve)
    if random_forest or plus:
        out = m.model.predict(Z[-1:])
    else:
        out = m.model.predict(pd.DataFrame(Z[-1:], columns=m.feature_names))
    if random_forest:
        out = m.label_scaler.inverse_transform(out.reshape(-1, 1)).ravel()
    if kind == "LinearRegression" and np.abs(m.model.coef_).max() > 1e4:
        raise Skip  # collinear features with huge coefficients: rounding decides
    nxt = s[before[0] + 1]
    c.close(got, [v[good[-1]] - s[-1] - out[0] + nxt], "the forecast is not the last value plus the forecast change and the seasonal step", rtol=1e-6, atol=1e-6)
    c.close(m.predict_polyfit(), nxt, "the seasonal forecast is not that of the next clock time", rtol=1e-7, atol=1e-7)
    c.event("forecasts judged")
    c.event("seasonal models", 1)
    c.check(snap.unchanged(ts), "the caller's series changes")
    c.state("plus" if plus else "dynamic", n, zero, kind)


def refused(c):
    ts, t, v = data(c, 60, False)
    two = TimeSeriesData(pd.DataFrame({"time": t, "y": v, "b": v}))
    mod, cls = c.choice([(nowcasting, "NowcastingModel"), (nowcastingplus, "NowcastingPlusModel"), (dynamic_nowcasting, "NowcastingModel")])
    c.raises(ValueError, "several columns are taken", getattr(mod, cls), two, mod.NowcastingParams(step=1))
    c.state("refused", cls)


SCENARIOS = [("features", 500, 12000, features), ("basic", 60, 600, basic), ("seasonal", 70, 700, seasonal), ("refused", 12, 60, refused)]
NEED = {"feature values judged": 5000, "features of beginnings": 250, "rows trained on": 2500, "forecasts judged": 100, "models restored": 30,
        "seasonal models": 25, "refusals observed": 8}
