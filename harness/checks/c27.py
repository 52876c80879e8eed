"""C27: pipelines treat every series alone; evaluation runs, column renaming and version comparison."""
import numpy as np
import pandas as pd
from kats.compat.compat import Version
from kats.consts import TimeSeriesData
from kats.detectors.cusum_detection import CUSUMDetector
from kats.detectors.robust_stat_detection import RobustStatDetector
from kats.detectors.trend_mk import MKDetector
from kats.evaluation.evaluator import Evaluator
from kats.models.linear_model import LinearModel, LinearModelParams
from kats.models.quadratic_model import QuadraticModel, QuadraticModelParams
from kats.models.simple_heuristic_model import SimpleHeuristicModel, SimpleHeuristicModelParams
from kats.models.theta import ThetaModel, ThetaParams
from kats.tsfeatures.tsfeatures import TsFeatures
from kats.utils.cupik import Pipeline
from kats.utils.dataframe_utils import rename_columns_by_prefix
from sklearn.linear_model import LogisticRegression
from sklearn.neighbors import KNeighborsClassifier
from sklearn.tree import DecisionTreeClassifier

import gen
from core import Skip

PROPERTY = "C27"
RULE = ("random collections of series and random chains of detectors, outlier removal, features, models and classifiers through a pipeline; random "
        "histories of evaluation runs, tables with prefixes and pairs of versions; distinct = (chain, collection, settings)")
ASSUMPTIONS = ["every step alone on one series is judged by other properties; here it is the reference",
               "classifiers of scikit-learn are given several series"]
JOBS = 8


class Spikes:
    """A step of the user's own: finds large values, and can take them away."""
    __type__ = "detector"
    __subtype__ = "outlier"

    def __init__(self):
        self.data = None
        self.found = None

    def detector(self, pipe=None, bound=4.0):
        v = np.asarray(self.data.value, dtype=float)
        self.found = [i for i in range(len(v)) if abs(v[i]) > bound]
        return {"pipe": pipe, "bound": bound, "found": list(self.found), "n": len(v)}

    def remover(self, interpolate=False):
        v = np.array(self.data.value, dtype=float)
        v[self.found] = 0.0
        return TimeSeriesData(time=pd.Series(self.data.time.to_numpy()), value=pd.Series(v, name="cleaned"))


class Doubling:
    """A model of the user's own that keeps state."""
    __type__ = "model"

    def __init__(self):
        self.data, self.sums, self.options = None, [], None

    def fit(self, **options):
        self.sums.append(float(np.sum(np.asarray(self.data.value, dtype=float))))
        self.options = options


def series(c, k, n):
    out = []
    for _ in range(k):
        slope = c.choice([0.0, 0.3, -0.4, 2.0])
        v = c.rng.normal(0, 1, n) + slope * np.arange(n)
        if c.chance(0.5):
            v[n // 2:] += c.choice([3.0, -6.0])
        if c.chance(0.4):
            v[c.int(0, n - 1)] += 12
        out.append(TimeSeriesData(time=pd.Series(pd.date_range(gen.start(c), periods=n, freq="D")), value=pd.Series(v, name="v")))
    return out


def points(found):
    return [(pd.Timestamp(p.start_time), pd.Timestamp(p.end_time), round(float(p.confidence), 9)) for p in found]


DETECTORS = {"mk": lambda ts: MKDetector(ts), "cusum": lambda ts: CUSUMDetector(ts), "robust": lambda ts: RobustStatDetector(ts)}
OPTIONS = {"mk": lambda c: {"window_size": c.int(5, 20), "direction": c.choice(["up", "down", "both"])},
           "cusum": lambda c: {"change_directions": [c.choice(["increase", "decrease"])]},
           "robust": lambda c: {"smoothing_window_size": c.int(1, 5), "comparison_window": c.int(-4, -1)}}
MODELS = {"linear": lambda ts: LinearModel(ts, LinearModelParams(alpha=0.1)), "quadratic": lambda ts: QuadraticModel(ts, QuadraticModelParams(alpha=0.1)),
          "last": lambda ts: SimpleHeuristicModel(ts, SimpleHeuristicModelParams(method="last")),
          "theta": lambda ts: ThetaModel(ts, ThetaParams(m=1))}


def pipeline(c):
    n, k = c.int(30, 70), c.int(1, 4)
    data = series(c, k, n)
    single = k == 1 and c.chance(0.6)
    names, steps, params = [], [], {}
    kinds = [c.choice(["mk", "cusum", "robust", "spikes", "features"]) for _ in range(c.int(0, 3))]
    last = c.choice(["none", "linear", "quadratic", "last", "theta", "own"])
    if last != "none":
        kinds.append(last)
    if not kinds:
        raise Skip
    remove = c.chance(0.5)
    feats = ["length", "mean", "var", "flat_spots"]
    for i, kind in enumerate(kinds):
        name = f"{kind} {i}"
        names.append(name)
        if kind in DETECTORS:
            steps.append((name, DETECTORS[kind](data[0])))
            if c.chance(0.6):
                params[name] = OPTIONS[kind](c)
        elif kind == "spikes":
            steps.append((name, Spikes()))
            if c.chance(0.5):
                params[name] = {"bound": c.choice([2.0, 6.0])}
        elif kind == "features":
            steps.append((name, TsFeatures(selected_features=list(feats))))
        elif kind == "own":
            steps.append((name, Doubling()))
            params[name] = {"level": c.int(0, 3)}
        else:
            steps.append((name, MODELS[kind](data[0])))
    if c.chance(0.3):
        params["another step"] = {"window_size": 3}
    keep_params = {a: dict(b) for a, b in params.items()}
    c.note(kinds=kinds, n=n, k=k, single=single, remove=remove, params=params)
    # the reference: every step alone, on every series alone
    want, now = {}, list(data)
    for name, kind in zip(names, kinds):
        opt = params.get(name, {})
        if kind in DETECTORS:
            want[name] = [points(DETECTORS[kind](d).detector(**opt)) for d in now]
        elif kind == "features":
            want[name] = [TsFeatures(selected_features=list(feats)).transform(d) for d in now]
        elif kind == "spikes":
            want[name] = []
            for i, d in enumerate(now):
                s = Spikes()
                s.data = d
                want[name].append(s.detector(pipe=True, **opt))
                if remove:
                    now[i] = s.remover(interpolate=True)
    snaps = [gen.Frozen(d) for d in data]
    given = data[0] if single else list(data)
    pipe = Pipeline(steps)
    out = pipe.fit(given, params=params, remove=remove)
    c.check(all(s.unchanged(d) for s, d in zip(snaps, data)), "a given series changes")
    if not single:
        c.check(len(given) == k and all(a is b for a, b in zip(given, data)), "the caller's list changes")
    c.check(params == keep_params, "the caller's parameters change", got=params, want=keep_params)
    c.check(pipe.univariate == single, "the pipeline says it was given another form", got=pipe.univariate)
    c.check(isinstance(out, list) != single and (single or len(out) == k), "the results do not have the form of the data", got=type(out))
    results = [out] if single else out
    c.check(sorted(pipe.metadata) == sorted(want), "outputs kept for other steps", got=sorted(pipe.metadata), want=sorted(want))
    for name, kind in zip(names, kinds):
        if name not in want:
            continue
        got = pipe.metadata[name]
        c.check(len(got) == k, "a step has another number of outputs", got=len(got), want=k)
        for g, w in zip(got, want[name]):
            if kind in DETECTORS:
                c.check(points(g) == w, "a detector in the pipeline finds something else", step=name, got=points(g)[:5], want=w[:5])
            elif kind == "spikes":
                c.check(g == w, "the user's own detector is run otherwise", step=name, got=g, want=w)
            else:
                c.check(sorted(g) == sorted(w), "the features are others", got=sorted(g))
                c.close([float(g[q]) for q in sorted(w)], [float(w[q]) for q in sorted(w)], "a feature in the pipeline has another value")
            c.event("outputs of steps judged")
    if last == "none":
        for r, w in zip(results, now):
            c.check(isinstance(r, TimeSeriesData) and gen.rows(r) == gen.rows(w), "the data that come out are not those of the last step")
    elif last == "own":
        for i, (r, w) in enumerate(zip(results, now)):
            c.close(r.sums, [float(np.sum(np.asarray(w.value, dtype=float)))], "the user's own model is fitted on something else", rtol=1e-9)
            c.check(r.options == keep_params[names[-1]], "the user's own model gets other options", got=r.options)
            c.check(gen.rows(r.data) == gen.rows(w), "a model holds another series")
    else:
        h = c.int(1, 5)
        c.check(len({id(r) for r in results}) == k, "several series get the same model")
        for i, (r, w) in enumerate(zip(results, now)):
            ref = MODELS[last](w)
            ref.fit()
            a, b = r.predict(steps=h, freq="D"), ref.predict(steps=h, freq="D")
            c.check(list(pd.DatetimeIndex(a.time)) == list(pd.DatetimeIndex(b.time)), "a model of the pipeline forecasts other times", series=i)
            c.close(a.fcst.to_numpy(float), b.fcst.to_numpy(float), "a model of the pipeline forecasts otherwise than alone", rtol=1e-6, atol=1e-6, series=i)
            c.event("models judged")
    if c.chance(0.3):
        v = c.rng.normal(0, 1, (20, 2))
        multi = TimeSeriesData(pd.DataFrame({"time": pd.date_range("2020-01-01", periods=20), "a": v[:, 0], "b": v[:, 1]}))
        step = c.choice([("d", CUSUMDetector(data[0])), ("m", MODELS["linear"](data[0])), ("s", Spikes())])
        c.raises(ValueError, "multivariate data are accepted", Pipeline([step]).fit, multi)
    c.state("pipeline", tuple(kinds), k, single, remove)


def classified(c):
    k, n = c.int(6, 14), c.int(20, 40)
    data = series(c, k, n)
    for i in range(k):
        if c.chance(0.15):
            data[i] = TimeSeriesData(time=data[i].time, value=pd.Series(np.full(n, 1.0)))  # some features are missing
    y = np.array([i % 2 for i in range(k)])
    c.rng.shuffle(y)
    feats = ["length", "mean", "var", "entropy", "y_acf1", "flat_spots"]
    clf = c.choice([DecisionTreeClassifier(random_state=0), KNeighborsClassifier(n_neighbors=3), LogisticRegression()])
    seen, old = [], type(clf).fit
    own = "fit" in type(clf).__dict__

    def fit(self, X, y, *a, **kw):
        seen.append((np.array(X, dtype=float), np.array(y)))
        return old(self, X, y, *a, **kw)
    type(clf).fit = fit
    try:
        pipe = Pipeline([("f", TsFeatures(selected_features=list(feats))), ("c", clf)])
        out = pipe.fit(list(data), useFeatures=True, y=y)
    finally:
        if own:
            type(clf).fit = old
        else:
            del type(clf).fit
    c.note(k=k, n=n, clf=type(clf).__name__)
    want = pd.DataFrame([TsFeatures(selected_features=list(feats)).transform(d) for d in data])
    good = [q for q in want.columns if not want[q].isna().any()]
    c.check(out is clf and len(seen) == 1, "the classifier is not fitted once and returned", got=len(seen))
    c.check(seen[0][0].shape == (k, len(good)), "the classifier gets another table", got=seen[0][0].shape, want=(k, len(good)))
    c.close(seen[0][0], want[good].to_numpy(float), "the classifier does not get every series' features in order", rtol=1e-9)
    c.check(seen[0][1].tolist() == y.tolist(), "the classifier gets other labels")
    c.check(len(pipe.metadata["f"]) == k, "features kept")
    c.event("classifiers judged")
    which = c.int(0, 1)
    if which:
        c.raises((AssertionError, ValueError), "a classifier without labels is accepted", pipe.fit, list(data), useFeatures=True)
    else:
        c.raises((AssertionError, ValueError), "a classifier on series themselves is accepted", pipe.fit, list(data), y=y)
    c.state("classified", k, len(good), type(clf).__name__)


class Run(Evaluator):
    def generate_predictions(self, run_name, model, model_params, tune_params=False):
        preds = model(model_params)
        self.get_evaluation_run(run_name).preds = preds
        return preds


def evaluation(c):
    ev, model = Run(), {}
    names = ["a", "A", ""][:c.int(1, 3)]
    for _ in range(c.int(6, 18)):
        name = c.choice(names)
        act = c.choice(["create", "predict", "predict", "evaluate", "evaluate", "evaluate", "delete", "get", "bad"])
        if name not in model and c.chance(0.6):
            act = "create"
        if act == "create":
            if name in model:
                c.raises(ValueError, "a run is created twice", ev.create_evaluation_run, name)
            else:
                ev.create_evaluation_run(name)
                model[name] = None
        elif act == "bad":
            c.raises(ValueError, "a name that is no text is accepted", c.choice([ev.create_evaluation_run, ev.get_evaluation_run, ev.delete_evaluation_run]),
                     c.choice([1, None, ("a",)]))
        elif name not in model:
            fn = {"predict": lambda: ev.generate_predictions(name, lambda p: [1.0], None), "delete": lambda: ev.delete_evaluation_run(name),
                  "get": lambda: ev.get_evaluation_run(name), "evaluate": lambda: ev.evaluate(name, {}, [1.0])}[act]
            c.raises(ValueError, "an unknown run is accepted", fn)
        elif act == "delete":
            ev.delete_evaluation_run(name)
            del model[name]
        elif act == "predict":
            p = c.rng.normal(0, 1, c.int(1, 6))
            p = c.choice([lambda: p, lambda: p.tolist(), lambda: pd.Series(p)])()
            ev.generate_predictions(name, lambda q: p, None)
            model[name] = p
        elif act == "evaluate":
            n = len(model[name]) if model[name] is not None else 3
            wrong = c.chance(0.25)
            labels = c.rng.normal(0, 1, n + wrong)
            labels = c.choice([lambda: labels, lambda: labels.tolist(), lambda: pd.Series(labels)])()
            calls = []

            def first(a, b):
                calls.append((a, b))
                return float(np.mean(np.abs(np.asarray(a) - np.asarray(b))))

            def second(a, b):
                calls.append((a, b))
                return float(np.sum(np.asarray(a) - 2 * np.asarray(b)))
            todo = {"mae": first, "sum": second}
            if model[name] is None:
                c.raises(ValueError, "a run without predictions is evaluated", ev.evaluate, name, todo, labels)
            elif wrong:
                c.raises(ValueError, "labels of another length are accepted", ev.evaluate, name, todo, labels)
            elif c.chance(0.1):
                c.raises(ValueError, "a single label is accepted", ev.evaluate, name, todo, 3.0)
            elif c.chance(0.1):
                def broken(a, b):
                    raise ValueError("no")
                c.raises(ValueError, "a failing metric is ignored", ev.evaluate, name, {"mae": first, "x": broken}, labels)
            else:
                out = ev.evaluate(name, todo, labels)
                c.check(all(a is model[name] and b is labels for a, b in calls) and len(calls) == 2, "metrics do not get predictions and labels")
                p, q = np.asarray(model[name], dtype=float), np.asarray(labels, dtype=float)
                c.check(list(out.columns) == ["mae", "sum"] and len(out) == 1, "form of the results", got=out.shape)
                c.close(out.iloc[0].to_numpy(float), [np.abs(p - q).mean(), (p - 2 * q).sum()], "a metric has another value")
                run = ev.get_evaluation_run(name)
                c.check(run.results is out and run.labels is labels and run.preds is model[name], "the run does not keep what it was evaluated on")
                c.event("evaluations judged")
        else:
            run = ev.get_evaluation_run(name)
            c.check(run.preds is model[name], "a run has another run's predictions")
        c.check(sorted(ev.runs) == sorted(model), "the runs are not those created and not deleted", got=sorted(ev.runs), want=sorted(model))
    c.note(runs=sorted(model))
    c.state("evaluation", tuple(sorted(model)))


def renaming(c):
    words = ["test_", "test_metric_", "control_", "control", "x", "tim", "time", "_", "A", "a"]
    tails = ["count", "", "1", "metric_count", "e"]
    cols = []
    for _ in range(c.int(1, 6)):
        w = c.choice(words) + c.choice(tails)
        if w not in cols and w:
            cols.append(w)
    tname = c.choice(["time", "time", "when"])
    if tname not in cols and c.chance(0.9):
        cols.insert(c.int(0, len(cols)), tname)
    df = pd.DataFrame(c.rng.randint(0, 9, (c.int(0, 4), len(cols))), columns=cols)
    prefixes = {}
    for _ in range(c.int(1, 3)):
        prefixes[c.choice(words + cols)] = f"new {len(prefixes)}"
    kw = {} if tname == "time" else {"time_col_name": tname}
    c.note(cols=cols, prefixes=prefixes, tname=tname)
    keep, keep_p = df.copy(deep=True), dict(prefixes)
    found, bad = {}, False
    for p in prefixes:
        m = [q for q in cols if q != tname and q[:len(p)] == p]
        if len(m) != 1 or m[0] in found:
            bad = True
            break
        found[m[0]] = prefixes[p]
    if bad:
        c.raises(ValueError, "an ambiguous or useless prefix is accepted", rename_columns_by_prefix, df, prefixes, **kw)
    else:
        out = rename_columns_by_prefix(df, prefixes, **kw)
        c.check(list(out.columns) == [found.get(q, q) for q in cols], "columns are renamed otherwise", got=list(out.columns), want=[found.get(q, q) for q in cols])
        c.check(np.array_equal(out.to_numpy(), keep.to_numpy()) and out.index.equals(keep.index), "renaming changes the data")
        if len(df):
            out.iloc[0, 0] = -99
        c.event("renamed tables")
    c.check(gen.frame_equal(df, keep) and prefixes == keep_p, "the caller's table or prefixes change")
    c.state("renaming", tuple(cols), tuple(prefixes), bad)


def version(c):
    """A version as text, and its place in the order of releases."""
    rel = [c.int(0, 2) if c.chance(0.5) else c.choice([0, 9, 10, 11, 100]) for _ in range(c.int(1, 4))]
    text = ".".join(map(str, rel))
    rel = tuple(rel + [0] * (4 - len(rel)))
    kind = c.choice(["", "", "", "rc", "dev", "post", "a"])
    k = c.int(0, 11)
    text += {"": "", "rc": f"rc{k}", "dev": f".dev{k}", "post": f".post{k}", "a": f"a{k}"}[kind]
    place = {"dev": (0, k), "a": (1, k), "rc": (2, k), "": (3, 0), "post": (4, k)}[kind]
    return text, (rel, place)


def versions(c):
    for _ in range(10):
        (a, ka), (b, kb) = version(c), version(c)
        if c.chance(0.2):
            b, kb = a + "" if "." in a and not a[-1].isalpha() else a, ka
        x = Version(a)
        y = c.choice([lambda: b, lambda: Version(b), lambda: Version(b).version, lambda: Version(Version(b))])()
        c.note(a=a, b=b)
        got = (x < y, x <= y, x == y, x >= y, x > y, x != y)
        want = (ka < kb, ka <= kb, ka == kb, ka >= kb, ka > kb, ka != kb)
        c.check(got == want, "two versions compare otherwise than as releases", a=a, b=b, got=got, want=want)
        c.event("versions compared")
        c.state("versions", a, b)
    import packaging.version
    import sklearn
    c.check(Version("sklearn") == packaging.version.parse(sklearn.__version__), "the version of a package is another one")


SCENARIOS = [
    ("pipeline", 130, 3000, pipeline),
    ("classified", 40, 800, classified),
    ("evaluation", 200, 5000, evaluation),
    ("renaming", 300, 8000, renaming),
    ("versions", 60, 2000, versions),
]
NEED = {"outputs of steps judged": 200, "models judged": 70, "classifiers judged": 20, "evaluations judged": 40, "renamed tables": 20,
        "versions compared": 300, "refusals observed": 300}
