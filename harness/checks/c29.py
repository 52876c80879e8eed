"""C29: the Prophet model: what is trained, and forecasts at the wanted times."""
import copy
import math

import kats.models.prophet as kp
import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
from kats.models.prophet import ProphetModel, ProphetParams
from prophet import Prophet
from scipy import stats

import gen
from core import Skip

PROPERTY = "C29"
RULE = ("random series (hourly to monthly, gaps, missing values anywhere, further columns in any order) and random settings (growth, cap, "
        "floor, changepoints, seasonalities, holidays, regressors, bands) forecast for steps or given frames, with and without history; "
        "distinct = (growth, columns, settings, kind of request) signature")
ASSUMPTIONS = ["Prophet itself is trusted: the reference is a Prophet object built from the same description and trained on the same rows",
               "without a given frequency the step is the most frequent gap (months and longer need the frequency)",
               "how many rows of a given future frame are answered is judged as all of them",
               "sampled spreads are judged within 20-30 %, on long horizons only; full Bayesian sampling is not run"]
SETTINGS = ["growth", "n_changepoints", "changepoint_range", "yearly_seasonality", "weekly_seasonality", "daily_seasonality",
            "seasonality_mode", "seasonality_prior_scale", "holidays_prior_scale", "changepoint_prior_scale", "mcmc_samples",
            "interval_width", "uncertainty_samples"]


def series(c, n):
    freq = c.choice(["D", "D", "H", "3H", "W", "MS", "15min"])
    at = pd.Timestamp(c.choice(["2019-02-01", "2020-06-01", "2021-12-01"]))
    t = pd.date_range(at + (pd.Timedelta("5h") if freq == "D" and c.chance(0.3) else pd.Timedelta(0)), periods=n, freq=freq)
    keep = np.ones(n, bool)
    if freq != "MS" and c.chance(0.4):
        keep[c.rng.choice(np.arange(1, n - 1), size=c.int(1, n // 8), replace=False)] = False
    t = t[keep]
    i = np.arange(len(t))
    scale = c.choice([1.0, 30.0, 5000.0])
    v = 50 + c.choice([-0.1, 0.0, 0.2]) * i + c.choice([0, 5]) * np.sin(i * 2 * math.pi / c.choice([7, 12, 24])) + c.rng.normal(0, 1, len(t))
    v = v * scale
    if c.chance(0.45):
        v[c.rng.choice(len(v) - 1, size=c.int(1, 4), replace=False)] = np.nan
        c.event("series with missing values")
    if c.chance(0.25):
        v[-c.int(1, 4):] = np.nan
        c.event("series that end in missing values")
    return t, v, freq, scale


def settings(c, t, v, freq, scale):
    """(params for Kats, params for Prophet, further columns as time -> values, needs a frame)."""
    p = {"uncertainty_samples": c.choice([40, 80]), "yearly_seasonality": c.choice(["auto", False, 2]),
         "weekly_seasonality": c.choice(["auto", False, True, 2]), "daily_seasonality": c.choice(["auto", False, 2])}
    for k, vals in (("n_changepoints", [0, 3, 10]), ("changepoint_range", [0.5, 0.9]), ("seasonality_mode", ["multiplicative"]),
                    ("seasonality_prior_scale", [0.1, 3.0]), ("holidays_prior_scale", [0.5]), ("changepoint_prior_scale", [0.01, 0.5]),
                    ("interval_width", [0.5, 0.95])):
        if c.chance(0.4):
            p[k] = c.choice(vals)
    if c.chance(0.2):
        p["changepoints"] = [str(t[len(t) // 4]), str(t[len(t) // 2])]
    if c.chance(0.2):
        p["holidays"] = pd.DataFrame({"holiday": "feast", "ds": [t[3].normalize(), t[len(t) // 2].normalize(), t[-1].normalize() + pd.Timedelta("2D")],
                                      "lower_window": 0, "upper_window": c.choice([0, 1])})
    if c.chance(0.08):
        p["uncertainty_samples"] = c.choice([0, False])
    p["growth"] = c.choice(["linear", "linear", "flat", "logistic"])
    own, kats = dict(p), dict(p)
    cols, frame = {}, False
    top = c.choice([float(np.nanmax(v)) * 1.5 + scale, float(np.nanmax(v)) * 1.1 + scale, float(np.nanquantile(v, 0.9))])
    for name, base, want in (("cap", top, p["growth"] == "logistic" or c.chance(0.1)),
                             ("floor", c.choice([float(np.nanmin(v)) - 3 * scale, float(np.nanquantile(v, 0.1))]), c.chance(0.5 if p["growth"] == "logistic" else 0.15))):
        if not want:
            if c.chance(0.2) and (name == "floor" or p["growth"] != "logistic"):
                kats[name] = c.choice([None, False])
            continue
        if c.chance(0.5):
            kats[name] = c.choice([base, int(base)])
            cols[name] = lambda x, b=kats[name]: np.full(len(x), float(b))
        else:
            kats[name] = True
            cols[name] = lambda x, b=base, s=scale: b + s * (np.arange(len(x)) % 3 == 0) * (1 if b > 0 else -1)
            frame = True
    seas = []
    if c.chance(0.4):
        seas.append({"name": "monthly", "period": 30.5, "fourier_order": c.int(1, 4)})
    if c.chance(0.25):
        seas.append({"name": "strange", "period": c.choice([3.3, 11.0]), "fourier_order": 2, "mode": c.choice(["additive", "multiplicative"]), "prior_scale": 0.7})
    regs = []
    if c.chance(0.35):
        regs.append({"name": "rain"})
        cols["rain"] = lambda x: np.sin(np.arange(len(x)) * 0.7) * 3 + 1
        if c.chance(0.5):
            regs.append({"name": "ads", "mode": c.choice(["additive", "multiplicative"]), "prior_scale": c.choice([0.3, 5.0])})
            cols["ads"] = lambda x: (np.arange(len(x)) % 5 == 0) * 1.0
        frame = True
    if seas or c.chance(0.3):
        kats["custom_seasonalities"] = seas
    if regs or c.chance(0.3):
        kats["extra_regressors"] = regs
    return kats, own, seas, regs, cols, frame


def describe(kats):
    return {k: (v if not isinstance(v, pd.DataFrame) else v.astype(str).values.tolist()) for k, v in kats.items()}


def trained(c, own, seas, regs, frame):
    m = Prophet(**copy.deepcopy(own))
    for s in seas:
        m.add_seasonality(**s)
    for r in regs:
        m.add_regressor(**r)
    return m.fit(frame)


def same_model(c, a, b, scale):
    for k in SETTINGS:
        c.check(getattr(a, k) == getattr(b, k), "a setting does not reach Prophet", name=k, got=getattr(a, k), want=getattr(b, k))
    strip = lambda d: {k: {x: y for x, y in v.items()} for k, v in d.items()}
    c.check(strip(a.seasonalities) == strip(b.seasonalities), "the seasonalities are not the described ones", got=a.seasonalities, want=b.seasonalities)
    c.check(strip(a.extra_regressors) == strip(b.extra_regressors), "the regressors are not the described ones", got=a.extra_regressors, want=b.extra_regressors)
    c.check(list(pd.to_datetime(a.changepoints)) == list(pd.to_datetime(b.changepoints)), "the changepoints are not the described ones")
    ha, hb = a.history.reset_index(drop=True), b.history.reset_index(drop=True)
    c.check(list(ha.ds) == list(hb.ds), "the model is trained on other times", got=(len(ha), str(ha.ds.iloc[0]), str(ha.ds.iloc[-1])), want=(len(hb), str(hb.ds.iloc[0]), str(hb.ds.iloc[-1])))
    for x in ["y"] + [r for r in b.extra_regressors] + (["cap"] if b.growth == "logistic" else []) + (["floor"] if b.growth == "logistic" else []):
        c.check(x in ha.columns, "a column is missing from the training data", column=x)
        c.close(ha[x], hb[x], "the model is trained on other values", rtol=1e-9, atol=1e-9, column=x)
    c.event("trained models compared")


def judge(c, got, want, scale, bands=True):
    c.check(list(pd.to_datetime(got.time)) == list(want.ds), "the forecast is not for the wanted times", got=[str(x) for x in got.time][:3] + [str(x) for x in got.time][-3:],
            want=[str(x) for x in want.ds][:3] + [str(x) for x in want.ds][-3:], n=(len(got), len(want)))
    tol = 1e-5 * float(np.abs(want.yhat).max() + scale)
    c.close(got.fcst, want.yhat, "the forecast is not Prophet's", rtol=1e-5, atol=tol)
    if bands:
        c.close(got.fcst_lower, want.yhat_lower, "the lower bound is not Prophet's", rtol=1e-5, atol=tol)
        c.close(got.fcst_upper, want.yhat_upper, "the upper bound is not Prophet's", rtol=1e-5, atol=tol)
    c.event("forecast values judged", len(got))


def build(c, n):
    t, v, freq, scale = series(c, n)
    kats, own, seas, regs, cols, need = settings(c, t, v, freq, scale)
    inside = [x for x in cols if kats.get(x) is True or x in [r["name"] for r in regs]]
    extra = ["other"] if (inside or c.chance(0.15)) and c.chance(0.4) else []
    c.note(n=n, freq=freq, start=str(t[0]), end=str(t[-1]), missing=np.flatnonzero(np.isnan(v)).tolist(), scale=scale, columns=inside + extra, **describe(kats))
    if inside or extra or c.chance(0.1):
        d = {"y": v}
        for x in inside:
            d[x] = cols[x](t)
        for x in extra:
            d[x] = c.rng.normal(0, 1, len(t))
        order = list(d)
        c.rng.shuffle(order)
        tname = c.choice(["time", "ds", "stamp"])
        df = pd.DataFrame({x: d[x] for x in order})
        df.insert(0, tname, t)
        if c.chance(0.3):
            df = df.iloc[c.rng.permutation(len(df))]
        ts = TimeSeriesData(df, time_col_name=tname)
    else:
        ts = TimeSeriesData(time=pd.Series(t), value=pd.Series(v, name=c.choice(["y", "value", None, "x"])))
    frame = pd.DataFrame({"ds": t, "y": v})
    for x in cols:
        frame[x] = cols[x](t)
    return t, v, freq, scale, kats, own, seas, regs, cols, need, ts, frame


def forecast(c):
    t, v, freq, scale, kats, own, seas, regs, cols, need, ts, frame = build(c, c.int(30, 90))
    snap, given = gen.Frozen(ts), copy.deepcopy(kats)
    params = ProphetParams(**kats)
    m = ProphetModel(ts, params)
    try:
        ref = trained(c, own, seas, regs, frame)
    except Exception:
        c.raises(ValueError, "Prophet refuses these data, Kats does not", m.fit)
        return
    m.fit(**({"seed": c.int(0, 1000)} if c.chance(0.3) else {}))
    if c.chance(0.1):
        m.fit()
        c.event("models trained again")
    same_model(c, m.model, ref, scale)
    for turn in range(c.int(1, 3)):
        steps = c.choice([1, c.int(2, 20), c.int(2, 20), 60])
        history = c.chance(0.45)
        kw = {}
        step = freq
        if freq == "MS" or c.chance(0.3):
            kw["freq"] = freq
            if c.chance(0.25):
                kw["freq"] = step = c.choice(["D", "W", "MS", "7H"])
        gap = pd.Series(np.diff(t.values)).mode().iloc[0] if step == freq and freq not in ("MS", "W") else step
        nxt = pd.date_range(t[-1], periods=steps + 1, freq=gap)
        nxt = nxt[nxt > t[-1]][:steps]
        future = None
        want = pd.DataFrame({"ds": nxt if not history else t.append(nxt)})
        for x in cols:
            want[x] = cols[x](want.ds)
        if need or c.chance(0.3):
            kind = c.choice(["next", "next", "more", "with past", "shuffled"])
            if kind == "with past":
                want = pd.DataFrame({"ds": t[c.rng.randint(0, len(t), 1)[0]:].append(nxt)})
            elif kind == "more":
                want = pd.DataFrame({"ds": pd.date_range(t[-1], periods=steps + 4, freq=gap)[1:]})
            else:
                want = pd.DataFrame({"ds": nxt})
            for x in cols:
                want[x] = cols[x](want.ds)
            future = want.copy()
            for x in cols:
                if x in ("cap", "floor") and kats[x] is not True:
                    future = future.drop(columns=[x])
            if c.chance(0.3):
                future["note"] = 1.5
            if kind == "shuffled":
                future = future.iloc[c.rng.permutation(len(future))]
            if c.chance(0.3):
                future.index = np.arange(len(future)) + 7
            before = future.copy(deep=True)
            kw["future"] = future
            c.event("forecasts for a given frame")
        if len(want) == 0:
            raise Skip
        seed = c.int(0, 10 ** 6)
        c.note(turn=turn, steps=steps, history=history, freq_given=str(kw.get("freq")), frame=None if future is None else kind)
        np.random.seed(seed)
        ref_out = ref.predict(want.copy())
        got = m.predict(steps=steps, include_history=history, seed=seed, **kw)
        bands = bool(own["uncertainty_samples"])
        c.check(list(got.columns) == ["time", "fcst", "fcst_lower", "fcst_upper"], "the columns of a forecast are wrong", got=list(got.columns))
        judge(c, got, ref_out, scale, bands)
        if not bands:
            c.event("forecasts without bands")
            c.check(got[["fcst_lower", "fcst_upper"]].isna().all().all(), "bands are reported although none are asked for")
        if history and future is None:
            c.event("forecasts with history")
        if future is not None:
            c.check(gen.frame_equal(future, before) and list(future.columns) == list(before.columns), "the given frame of the future changes")
        if c.chance(0.3):
            raw = m.predict(steps, history, True, seed=seed, **kw)
            c.check(list(raw.columns) == list(ref_out.columns), "the raw forecast is not Prophet's frame", got=list(raw.columns), want=list(ref_out.columns))
            c.close(raw.drop(columns="ds").values, ref_out.drop(columns="ds").values, "the raw forecast is not Prophet's", rtol=1e-4,
                    atol=1e-4 * float(np.abs(ref_out.yhat).max() + scale))
            c.check(list(raw.ds) == list(ref_out.ds), "the raw forecast has other times")
            c.event("raw forecasts")
        c.state(own["growth"], len(cols), len(seas), len(regs), history, steps, freq, None if future is None else kind)
    c.check(snap.unchanged(ts), "the caller's series changes")
    for k in given:
        a, b = given[k], kats[k]
        c.check(gen.frame_equal(a, b) if isinstance(a, pd.DataFrame) else a == b and type(a) is type(b), "a given setting changes", name=k)


def alone(c):
    """The stand-alone prediction functions on a trained Prophet object."""
    t = pd.date_range("2020-01-01", periods=c.int(60, 120), freq=c.choice(["D", "H"]))
    i = np.arange(len(t))
    scale = c.choice([1.0, 400.0])
    v = (40 + np.abs(i - len(t) // 3) * c.choice([0.1, 0.3]) + 2 * np.sin(i * 2 * math.pi / 7) + c.rng.normal(0, 0.8, len(t))) * scale
    growth = c.choice(["linear", "linear", "flat", "logistic"])
    n, width = c.choice([600, 900]), c.choice([0.5, 0.8, 0.9])
    p = {"growth": growth, "uncertainty_samples": n, "interval_width": width, "n_changepoints": c.choice([10, 20]), "changepoint_prior_scale": 0.3,
         "weekly_seasonality": c.choice([False, True]), "daily_seasonality": False, "yearly_seasonality": False,
         "seasonality_mode": c.choice(["additive", "multiplicative"])}
    frame = pd.DataFrame({"ds": t, "y": v})
    floor = 0.0
    if growth == "logistic":
        frame["cap"] = v.max() * 2
        if c.chance(0.5):
            frame["floor"] = floor = 5 * scale
    m = Prophet(**p).fit(frame)
    part = c.choice(["history", "none", "both", "future", "one", "both"])
    ahead = 1 if part == "one" else int(len(t) * c.choice([0.3, 0.6, 1.0]))
    nxt = pd.date_range(t[-1], periods=ahead + 1, freq=t.freq)[1:]
    ds = t if part in ("history", "none") else nxt if part in ("future", "one") else t.append(nxt)
    df = pd.DataFrame({"ds": ds})
    if growth == "logistic":
        df["cap"] = frame.cap.iloc[0]
        if "floor" in frame:
            df["floor"] = floor
    margin, vec, seed = c.choice([None, None, 0.1, 1.0]), c.chance(0.75), c.int(0, 10 ** 6)
    c.note(part=part, rows=len(df), margin=margin, vectorized=vec, scale=scale, **p)
    given = df.sample(frac=1, random_state=3) if c.chance(0.3) else df
    before = given.copy(deep=True)
    want = m.predict(df.copy())
    if not vec:
        m.uncertainty_samples = n = 150
    np.random.seed(seed)
    got = kp.predict(m, None if part == "none" else given, vec, margin)
    c.check(gen.frame_equal(given, before), "the given frame changes")
    c.check(list(got.ds) == list(want.ds), "the prediction is for other times")
    big = float(np.abs(want.yhat).max())
    for k in [x for x in want.columns if x != "ds" and not x.startswith(("yhat_", "trend_"))]:
        c.check(k in got, "a component of the prediction is missing", name=k)
        c.close(got[k], want[k], "a component of the prediction is not Prophet's", rtol=1e-7, atol=1e-9 * big, name=k)
    c.event("components compared", len(want))
    x = m.setup_dataframe(df.copy()) if part != "none" else m.history.copy()
    x["trend"] = m.predict_trend(x)
    np.random.seed(seed)
    draws = kp.sample_posterior_predictive(m, x, vec)
    half = m.y_scale * margin / 2 if margin else 0.0
    for k in ("yhat", "trend"):
        c.check(draws[k].shape == (n, len(x)), "the number of samples is not the asked one", got=draws[k].shape, want=(n, len(x)))
        c.close(got[k + "_lower"], np.percentile(draws[k], 50 * (1 - width), axis=0) - half, "the lower bound is not the quantile of the samples less half the margin",
                rtol=1e-7, atol=1e-9 * big, name=k)
        c.close(got[k + "_upper"], np.percentile(draws[k], 50 * (1 + width), axis=0) + half, "the upper bound is not the quantile of the samples plus half the margin",
                rtol=1e-7, atol=1e-9 * big, name=k)
    c.event("bounds compared", len(x))
    if margin:
        c.event("bounds with a margin")
    past = x["t"].values <= 1
    sure = np.ones(len(x), bool) if growth == "flat" else past
    trend = x["trend"].values
    if sure.any():
        c.close(draws["trend"][:, sure], np.tile(trend[sure], (n, 1)), "the trend of the past (or a flat one) is uncertain", rtol=1e-7, atol=1e-7 * big)
        noise = draws["yhat"][:, sure] - got.yhat.values[sure]
        sigma = float(m.params["sigma_obs"].ravel()[0]) * m.y_scale
        if noise.size > 3000:
            c.check(0.93 < noise.std() / sigma < 1.07, "the noise of the samples has not the trained deviation", got=noise.std(), want=sigma)
            c.check(abs(noise.mean()) < 6 * sigma / math.sqrt(noise.size), "the samples are off the forecast", got=noise.mean(), deviation=sigma)
            c.event("noise measured")
    if vec and not sure.all():
        f = ~past
        d = draws["trend"][:, f]
        dev = d.std(axis=0)
        off = np.abs(d.mean(axis=0) - trend[f])
        c.check((off < 7 * dev / math.sqrt(n) + 1e-6 * big).all(), "the samples of the trend are off the trend", got=off.max(), deviation=dev.max())
        s, T = len(m.changepoints_t), x["t"].values[f]
        if s * (T[-1] - 1) > 3 and part != "one":
            lam = float(np.abs(m.params["delta"]).mean()) + 1e-8
            if growth == "linear":
                ref = lam * np.sqrt(2 * s * (T - 1) ** 3 / 3) * m.y_scale
                at = slice(len(T) * 2 // 3, None)
            else:
                ref = (m.sample_predictive_trend_vectorized(x, n)[:, f]).std(axis=0)
                at = slice(len(T) // 2, None)
            r = dev[at].mean() / max(ref[at].mean(), 1e-12)
            if ref[at].mean() > 1e-9 * big:
                c.check(0.75 < r < 1.3, "the spread of the future trend is not that of its random changes", ratio=r, growth=growth)
                c.event("future spreads measured")
    c.state("alone", growth, part, vec, margin, width, p["seasonality_mode"], p["weekly_seasonality"])


def refused(c):
    n = 40
    t = pd.date_range("2020-01-01", periods=n)
    v = c.rng.normal(50, 5, n)
    one = TimeSeriesData(time=pd.Series(t), value=pd.Series(v))
    many = TimeSeriesData(pd.DataFrame({"time": t, "y": v, "rain": v * 2, "cap": v * 0 + 100, "floor": v * 0}))
    future = pd.DataFrame({"ds": pd.date_range("2020-02-10", periods=5), "rain": 1.0, "cap": 100.0, "floor": 0.0})
    what = c.choice(["no cap", "seasonality", "regressor kind", "regressor name", "regressor key", "no columns", "no y", "no regressor", "no cap column",
                     "no floor column", "unfitted", "future without", "no future", "empty", "untrained"])
    c.note(what=what)
    reg = [{"name": "rain"}]
    if what == "no cap":
        c.raises(ValueError, "logistic growth without a capacity is taken", ProphetParams, growth="logistic", cap=c.choice([None, False]))
    elif what == "seasonality":
        s = {"name": "s", "period": 5.0, "fourier_order": 2}
        del s[c.choice(sorted(s))]
        c.raises(ValueError, "an incomplete seasonality is taken", ProphetParams, custom_seasonalities=[{"name": "a", "period": 3, "fourier_order": 1}, s])
    elif what == "regressor kind":
        c.raises(ValueError, "a regressor that is no dictionary is taken", ProphetParams, extra_regressors=reg + [c.choice(["rain", ("name", "x"), 3])])
    elif what == "regressor name":
        c.raises(ValueError, "a regressor without a name is taken", ProphetParams, extra_regressors=reg + [{"mode": "additive"}])
    elif what == "regressor key":
        c.raises(ValueError, "a regressor with an unknown key is taken", ProphetParams, extra_regressors=[{"name": "x", c.choice(["scale", "standardize"]): 1}])
    elif what == "no columns":
        c.raises(ValueError, "regressors are taken without data", ProphetModel, one, ProphetParams(extra_regressors=reg))
    elif what == "no y":
        x = TimeSeriesData(pd.DataFrame({"time": t, "z": v, "rain": v}))
        c.raises(ValueError, "several columns without y are taken", ProphetModel, x, ProphetParams())
    elif what == "no regressor":
        c.raises(ValueError, "a regressor without data is taken", ProphetModel, many, ProphetParams(extra_regressors=reg + [{"name": "snow"}]))
    elif what in ("no cap column", "no floor column"):
        x = c.choice([one, TimeSeriesData(pd.DataFrame({"time": t, "y": v, "rain": v}))])
        k = what.split()[1]
        c.raises(ValueError, "a limit is taken from a column that is not there", ProphetModel, x, ProphetParams(**{k: True}))
    elif what == "unfitted":
        c.raises(ValueError, "a model predicts before it is trained", ProphetModel(one, ProphetParams()).predict, 5)
    elif what == "untrained":
        c.raises(Exception, "an untrained Prophet object predicts", kp.predict, Prophet(), future[["ds"]])
    elif what == "empty":
        m = Prophet(uncertainty_samples=0).fit(pd.DataFrame({"ds": t, "y": v}))
        c.raises(ValueError, "a frame without rows is taken", kp.predict, m, future[["ds"]].iloc[:0])
    else:
        m = ProphetModel(many, ProphetParams(growth="logistic", cap=True, floor=True, extra_regressors=reg, uncertainty_samples=10))
        m.fit()
        x = c.choice(["ds", "rain", "cap", "floor"])
        if what == "no future":
            c.raises(ValueError, "a forecast is made although the future of the regressors and limits is unknown", m.predict, 5)
        else:
            c.raises(ValueError, "a frame of the future without a needed column is taken", m.predict, 5, future=future.drop(columns=[x]))
            c.check(len(m.predict(5, future=future)) == 5, "a complete frame of the future is refused")
    c.state("refused", what)


SCENARIOS = [("forecast", 75, 1200, forecast), ("alone", 26, 400, alone), ("refused", 45, 300, refused)]
NEED = {"trained models compared": 40, "forecast values judged": 2000, "forecasts for a given frame": 25, "forecasts with history": 10, "raw forecasts": 10,
        "series with missing values": 12, "series that end in missing values": 6, "components compared": 800, "bounds compared": 800, "bounds with a margin": 5, "noise measured": 8,
        "future spreads measured": 4, "forecasts without bands": 1, "refusals observed": 25}
