"""C28: the meta-learners learn from the given rows and predict as their classifier says."""
import contextlib
import copy
import io
import os
import tempfile

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
from kats.detectors.meta_learning.metalearning_detection_model import MetaDetectModelSelect, metadata_detect_preprocessor
from kats.models.metalearner.metalearner_modelselect import MetaLearnModelSelect
from kats.models.metalearner.metalearner_predictability import MetaLearnPredictability
from kats.tsfeatures.tsfeatures import TsFeatures
from sklearn.ensemble import GradientBoostingClassifier, RandomForestClassifier
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KNeighborsClassifier
from sklearn.pipeline import Pipeline as SkPipeline

import gen
from core import Skip

PROPERTY = "C28"
RULE = ("random metadata (features in any order, missing values, given as text or as dictionaries) preprocessed and trained in random ways, with what the "
        "classifier is trained on recorded; distinct = (method, preprocessing, split, kind of metadata)")
ASSUMPTIONS = ["scikit-learn's classifiers are trusted: what they are given and how their answers are used is judged",
               "feature vectors given as arrays have the order of the first metadata entry"]
JOBS = 8
FEATS = ["length", "mean", "var", "entropy", "lumpiness", "stability", "flat_spots", "hurst", "crossing_points"]
MODELS = ["arima", "holtwinters", "theta", "prophet"]
CLASSIFIERS = {"RandomForest": RandomForestClassifier, "GBDT": GradientBoostingClassifier, "KNN": KNeighborsClassifier, "NaiveBayes": GaussianNB,
               "SVM": SkPipeline}


class Recorder:
    """What the classifiers of scikit-learn are fitted on and asked for."""

    def __init__(self, kind):
        self.cls, self.fits, self.asked = kind, [], []

    def __enter__(self):
        cls, me = self.cls, self
        self.old = {}
        for name in ("fit", "predict_proba"):
            if not hasattr(cls, name):
                continue
            own = name in cls.__dict__
            old = cls.__dict__[name] if own else getattr(cls, name)
            self.old[name] = (own, old)
            if not callable(old):
                del self.old[name]
                continue

            def wrap(obj, X, *a, _old=old, _name=name, **k):
                if _name == "fit":
                    me.fits.append((obj, np.array(X, dtype=float), np.array(a[0] if a else k["y"])))
                else:
                    me.asked.append(np.array(X, dtype=float))
                return _old(obj, X, *a, **k)
            setattr(cls, name, wrap)
        return self

    def __exit__(self, *exc):
        for name, (own, old) in self.old.items():
            if own:
                setattr(self.cls, name, old)
            else:
                delattr(self.cls, name)


def metadata(c, n, k, names=None, typical=None, form=None, missing=True, weights=None):
    """Entries, and the table they stand for: features, labels, errors by model."""
    names = list(names or [FEATS[i] for i in c.rng.permutation(len(FEATS))[:c.int(3, 7)]])
    models = [MODELS[i] for i in c.rng.permutation(4)[:k]]
    lab = c.rng.choice(k, n, p=weights)
    lab[:k] = np.arange(k)
    c.rng.shuffle(lab)
    X = c.rng.normal(0, 1, (n, len(names))) * (10.0 ** c.rng.randint(-2, 3, len(names))) + c.rng.normal(0, 5, len(names))
    if typical is not None:
        t = np.nan_to_num(typical)
        X = t[c.rng.randint(len(t), size=n)] * (1 + c.rng.normal(0, 0.2, (n, len(names)))) + c.rng.normal(0, 1e-3, (n, len(names)))
    X[:, 0] += 1.5 * lab * X[:, 0].std()
    if c.chance(0.3):
        X[:, -1] = 7.0
    if missing and c.chance(0.6):
        X[c.rng.rand(*X.shape) < 0.05] = np.nan
    err = c.rng.rand(n, k)
    form = form or c.choice(["dict", "dict", "text", "mixed"])
    shuffle = c.chance(0.5)
    out = []
    for i in range(n):
        order = c.rng.permutation(len(names)) if shuffle and i else np.arange(len(names))
        feats = {names[j]: float(X[i, j]) for j in order if not (np.isnan(X[i, j]) and i)}
        hpt = {m: ({"p": int(c.rng.randint(9)), "historical_window": 86400 * int(c.rng.randint(1, 9))}, float(err[i, j])) for j, m in enumerate(models)}
        text = form == "text" or form == "mixed" and c.chance(0.5)
        if text and any(np.isnan(v) for v in feats.values()):
            text = False
        out.append({"hpt_res": repr(hpt) if text else hpt, "features": repr(feats) if text else feats, "best_model": models[lab[i]], "note": i})
    return out, names, models, np.nan_to_num(X), lab, err, form


def whose(c, rows, X, what):
    """Which entry each row is."""
    out = []
    for r in rows:
        d = np.abs(X - r).max(axis=1)
        i = int(np.argmin(d))
        c.check(d[i] <= 1e-7 * (1 + np.abs(r).max()), what, got=r.tolist(), nearest=X[i].tolist())
        out.append(i)
    return out


def prepared(c, m, X, lab, err, models, names, calls):
    """Preprocess and follow what the table must become; returns (row numbers, mean, std or None)."""
    keep, scaled, mean, std = np.arange(len(X)), False, None, None
    for down, scale in calls:
        m.preprocess(downsample=down, scale=scale)
        raw = m.metadataX.to_numpy(float)
        c.check(list(m.metadataX.columns) == names, "the features are others", got=list(m.metadataX.columns))
        least = min(np.bincount(lab[keep], minlength=len(models)))
        if scaled:
            now = np.asarray(whose(c, raw, (X - mean) / std, "a row of the scaled table is no scaled entry"))
        elif scale:
            # the rows are known by their errors
            now = np.asarray([int(np.argmin([abs(h[models[0]][-1] - e) for e in err[:, 0]])) for h in m.hpt])
            mean, std = X[now].mean(axis=0), X[now].std(axis=0)
            std = np.where(np.ptp(X[now], axis=0) == 0, 1.0, std)
            c.close(raw, (X[now] - mean) / std, "features are not scaled to mean zero and unit variance", rtol=1e-6, atol=1e-6)
            scaled = True
        else:
            now = np.asarray(whose(c, raw, X, "a row of the table is no entry"))
        c.check(len(set(now.tolist())) == len(now) and set(now.tolist()) <= set(keep.tolist()), "rows are repeated or were removed before")
        if down:
            c.check(np.bincount(lab[now], minlength=len(models)).tolist() == [least] * len(models), "the classes are not equally large after down-sampling",
                    got=np.bincount(lab[now]).tolist(), want=least)
        else:
            c.check(now.tolist() == keep.tolist(), "rows are removed or moved without down-sampling")
        c.check(list(m.metadataY) == [models[lab[i]] for i in now], "a row has another entry's label")
        c.check(all(abs(h[q][-1] - err[i, j]) < 1e-12 for h, i in zip(m.hpt, now) for j, q in enumerate(models)), "a row has another entry's errors")
        c.event("preprocessed tables judged")
        keep = now
    return keep, mean, std


def trained(c, m, X, lab, err, models, keep, mean, std, method, how, size, trees, neighbours):
    with Recorder(CLASSIFIERS[method]) as rec:
        out = m.train(method=method, eval_method=how, test_size=size, n_trees=trees, n_neighbors=neighbours)
    own = [f for f in rec.fits if f[0] is m.clf]
    c.check(len(own) == 1, "the classifier kept is not the one that was trained", got=len(own))
    clf, A, y = own[0]
    Z = X if mean is None else (X - mean) / std
    train = whose(c, A, Z[keep], "the classifier is trained on a row that is no entry")
    train = [int(keep[i]) for i in train]
    c.check(y.tolist() == [models[lab[i]] for i in train], "the classifier is trained on another entry's label")
    test = [int(i) for i in keep if int(i) not in set(train)]
    c.check(len(set(train)) == len(train), "a row is used twice for training")
    c.check(abs(len(test) - size * len(keep)) <= 1, "the test set has another size", got=len(test), want=size * len(keep))
    if method == "RandomForest":
        c.check(len(clf.estimators_) == trees, "the forest has another number of trees", got=len(clf.estimators_), want=trees)
    if method in ("KNN", "NaiveBayes"):
        ref = (KNeighborsClassifier(n_neighbors=neighbours) if method == "KNN" else GaussianNB()).fit(A, y)
        c.close(clf.predict_proba(Z[keep]), ref.predict_proba(Z[keep]), "the classifier is not the asked one", rtol=1e-6, atol=1e-9)
    em = np.mean if how == "mean" else np.median
    col = {q: j for j, q in enumerate(models)}
    for part, rows in (("fit_error", train), ("pred_error", test)):
        guess = clf.predict(Z[rows])
        want = {"meta-learn": em([err[i, col[g]] for i, g in zip(rows, guess)])}
        for q in {models[lab[i]] for i in keep}:
            want[q] = em(err[rows, col[q]])
        c.check(sorted(out[part]) == sorted(want), "errors of other models are reported", got=sorted(out[part]), want=sorted(want))
        c.close([out[part][q] for q in sorted(want)], [want[q] for q in sorted(want)], f"another {part} is reported", how=how)
    c.close(out["clf_accuracy"], np.mean([g == models[lab[i]] for g, i in zip(clf.predict(Z[test]), test)]), "another accuracy is reported")
    c.event("trained selections judged")
    return clf, train, test


def tops(c, got, prob, classes, k, what):
    """The k most likely classes, in order; classes equally likely may change places."""
    classes = list(classes)
    for g, p in zip(got, prob):
        c.check(len(set(g)) == k, what, got=list(g))
        c.close([p[classes.index(q)] for q in g], sorted(p, reverse=True)[:k], what, named=list(g), of=dict(zip(classes, p.round(4))))


def selection(c):
    n, k = c.int(36, 90), c.int(2, 4)
    meta, names, models, X, lab, err, form = metadata(c, n, k)
    before = copy.deepcopy(meta)
    m = MetaLearnModelSelect(meta)
    c.check(dict(m.count_category()) == {q: int((lab == j).sum()) for j, q in enumerate(models)}, "entries are counted wrongly", got=dict(m.count_category()))
    c.close(m.metadataX.to_numpy(float), X, "the features are not those of the entries")
    c.raises(ValueError, "an untrained selection answers", m.pred_by_feature, X[:1])
    calls = [(c.chance(0.4), c.chance(0.5)) for _ in range(c.int(0, 2))]
    least = min(np.bincount(lab, minlength=k))
    if least * k < 14:
        calls = [(False, b) for _, b in calls]
    method = c.choice(["RandomForest", "GBDT", "SVM", "KNN", "NaiveBayes"])
    how, size = c.choice(["mean", "median"]), c.choice([0.1, 0.25, 0.4])
    trees, near = c.int(5, 25), c.int(1, 5)
    c.note(n=n, k=k, names=names, form=form, calls=calls, method=method, how=how, size=size, trees=trees, near=near)
    keep, mean, std = prepared(c, m, X, lab, err, models, names, calls)
    if method in ("GBDT", "SVM") and min(np.bincount(lab[keep], minlength=k)) < 4:
        method = "RandomForest"  # one class could be missing in training
    clf, train, test = trained(c, m, X, lab, err, models, keep, mean, std, method, how, size, trees, near)
    corr = m.get_corr_mtx()
    Z = X[keep]
    for a in range(len(names)):
        for b in range(len(names)):
            if min(np.ptp(Z[:, a]), np.ptp(Z[:, b])) > 0:
                c.close(corr.loc[names[a], names[b]], np.corrcoef(Z[:, a], Z[:, b])[0, 1], "a correlation of features is wrong", rtol=1e-6, atol=1e-8)
    # answers
    Q = X[c.rng.randint(n, size=6)] * (1 + c.rng.normal(0, 0.3, (6, len(names))))
    Q[c.rng.rand(*Q.shape) < 0.1] = np.nan
    F = np.nan_to_num(Q)
    F = F if mean is None else (F - mean) / std
    keep_q = Q.copy()
    given = {"array": lambda: Q, "list": lambda: list(Q), "frame": lambda: pd.DataFrame(Q, columns=names)}[c.choice(["array", "list", "frame"])]()
    got = m.pred_by_feature(given)
    c.check(list(got) == list(clf.predict(F)), "another model is chosen than the classifier's", got=list(got), want=list(clf.predict(F)))
    if method != "SVM":
        top = c.int(2, k)
        got = m.pred_by_feature(given, n_top=top)
        c.check(np.shape(got) == (6, top), "another number of models is answered", got=np.shape(got))
        tops(c, got, clf.predict_proba(F), clf.classes_, top, "the models are not the most likely ones, most likely first")
    c.check(np.array_equal(Q, keep_q, equal_nan=True), "the given features change")
    c.check(repr(meta) == repr(before), "the metadata change")
    # saving
    d = tempfile.mkdtemp(prefix="c28-")
    path = os.path.join(d, "model")
    try:
        m.save_model(path)
        again = MetaLearnModelSelect(load_model=True)
        again.load_model(path)
        c.check(list(again.pred_by_feature(given)) == list(clf.predict(F)), "a saved selection answers otherwise")
        c.raises(ValueError, "a file that is not there is loaded", MetaLearnModelSelect(load_model=True).load_model, os.path.join(d, "none"))
    finally:
        if os.path.exists(path):
            os.remove(path)
        os.rmdir(d)
    c.event("answers judged")
    c.state("selection", method, form, tuple(calls), how, size, k)


def small(c, n):
    v = c.rng.normal(0, c.choice([0.5, 2.0]), n) + c.choice([0.0, 0.2, -0.1]) * np.arange(n) + c.choice([3.0, 40.0])
    if c.chance(0.4):
        v = np.round(v)
    return TimeSeriesData(time=pd.Series(pd.date_range(gen.start(c), periods=n, freq="D")), value=pd.Series(v, name=c.choice(["value", "y"])))


def forecasts(c):
    """Whole series: the answer is that for the features of the series, scaled or not."""
    names = [f for f in FEATS if c.chance(0.7)]
    if len(names) < 3:
        raise Skip
    series = [small(c, c.int(30, 60)) for _ in range(8)]
    scaling = c.chance(0.7)

    def features(ts):
        v = np.asarray(ts.value, dtype=float)
        if scaling:
            v = v / v.max()
        got = TsFeatures(selected_features=list(names)).transform(TimeSeriesData(time=ts.time, value=pd.Series(v)))
        return list(got), np.array(list(got.values()), dtype=float)
    rows = [features(s) for s in series]
    order = rows[0][0]
    T = np.array([r[1] for r in rows])
    n, k = c.int(34, 60), c.int(2, 4)
    meta, names_, models, X, lab, err, form = metadata(c, n, k, order, T)
    scale = c.chance(0.5)
    what = c.choice(["selection", "selection", "predictability"])
    c.note(names=order, n=n, k=k, scaling=scaling, scale=scale, what=what)
    snaps = [gen.Frozen(s) for s in series]
    F = np.nan_to_num(T)
    if what == "predictability":
        bound = float(np.median(err[np.arange(n), lab]))
        m = MetaLearnPredictability(meta, threshold=bound)
        c.raises(ValueError, "an untrained predictability answers", m.pred, series[0])
        if scale:
            m.preprocess()
        m.train(method=c.choice(["KNN", "NaiveBayes"]), valid_size=0.3, test_size=0.2)
        want = m.pred_by_feature(T)
        got = [m.pred(s, ts_rescale=scaling, selected_features=list(names)) for s in series]
        c.check(got == [bool(w) for w in want], "a series is judged otherwise than its features", got=got, want=want.tolist())
    else:
        m = MetaLearnModelSelect(meta)
        c.raises(ValueError, "an untrained selection answers", m.pred, series[0])
        if scale:
            m.preprocess(downsample=False, scale=True)
            F = (F - X.mean(axis=0)) / np.where(np.ptp(X, axis=0) == 0, 1.0, X.std(axis=0))
        m.train(n_trees=c.int(8, 20), test_size=0.2)
        clf = m.clf
        near = np.array([[t.predict_proba(F) for t in clf.estimators_]])[0]  # trees, series, classes
        prob = clf.predict_proba(F)
        for i, s in enumerate(series):
            got = m.pred(s, ts_scale=scaling, selected_features=list(names))
            c.check(prob[i][list(clf.classes_).index(got)] >= prob[i].max() - 1e-9, "the model chosen for a series is not that for its features", got=got,
                    want=dict(zip(clf.classes_, prob[i])))
            if k > 2:
                tops(c, [m.pred(s, ts_scale=scaling, n_top=2, selected_features=list(names))], prob[i:i + 1], clf.classes_, 2, "top models of a series")
            level = c.choice([0.05, 0.2, 0.5, 0.0, 1.01])
            out = m.pred_fuzzy(s, ts_scale=scaling, sig_level=level, selected_features=list(names))
            p, q = float(out["pvalue"]), np.sort(prob[i])[::-1]
            c.check(0 <= p <= 1, "a p-value outside 0..1", got=p)
            c.check(len(out["label"]) == len(out["probability"]) == (2 if p >= level else 1), "one model is named exactly if it is significantly better",
                    p=p, level=level, got=list(out["label"]))
            tops(c, [list(out["label"])], prob[i:i + 1], clf.classes_, len(out["label"]), "the fuzzy answer is not the most likely models")
            c.close(out["probability"], q[:len(out["label"])], "a fuzzy answer has other probabilities", rtol=1e-9)
            if len(out["label"]) == 2 and (k == 2 or q[1] - q[2] > 1e-9) and q[0] - q[1] > 1e-9:
                a, b = (list(clf.classes_).index(g) for g in out["label"])
                diff = near[:, i, a] - near[:, i, b]
                boot = np.random.RandomState(1).choice(diff, (4000, len(diff))).mean(axis=1)
                # a mean of exactly zero may be rounded to either side
                lo, hi = np.mean(boot < -1e-12), np.mean(boot < 1e-12)
                c.check(lo - 0.25 <= p <= hi + 0.25, "the p-value is not that of bootstrapping the trees", got=p, want=(lo, hi))
                c.event("bootstraps judged")
    c.check(all(f.unchanged(s) for f, s in zip(snaps, series)), "a given series changes")
    c.event("series answered", len(series))
    c.state("forecasts", tuple(order), what, scaling, scale)


def predictability(c):
    n, k = c.int(45, 110), c.int(1, 4)
    meta, names, models, X, lab, err, form = metadata(c, n, k)
    mine = err[np.arange(n), lab]
    bound = float(c.choice([np.quantile(mine, q) for q in (0.3, 0.5, 0.7)]))
    if c.chance(0.3):
        bound = float(c.choice(mine))  # exactly at the threshold is predictable
    y = (mine > bound).astype(int)
    if not 6 <= y.sum() <= n - 6:
        raise Skip
    broken = []
    if c.chance(0.4):
        for i in sorted(c.rng.permutation(np.arange(1, n))[:c.int(1, 4)]):
            broken.append(int(i))
            meta[i] = dict(meta[i], **c.choice([{"best_model": "unknown"}, {"hpt_res": {}}, {"hpt_res": "{"}, {"features": "{'a': }"}]))
    rows = [i for i in range(n) if i not in broken]
    X, y = X[rows], y[rows]
    before = repr(meta)
    m = MetaLearnPredictability(meta, threshold=bound) if c.chance(0.9) else MetaLearnPredictability(meta, bound)
    c.raises(ValueError, "an untrained predictability answers", m.pred_by_feature, X[:1])
    scale, times = c.chance(0.5), c.int(1, 2)
    mean, std = X.mean(axis=0), np.where(np.ptp(X, axis=0) == 0, 1.0, X.std(axis=0))
    Z = X
    if scale:
        for _ in range(times):
            m.preprocess()
        Z = (X - mean) / std
    method = c.choice(["RandomForest", "GBDT", "KNN", "NaiveBayes"])
    valid, test = c.choice([(0.25, 0.15), (0.3, 0.2), (0.2, 0.3), (0.3, 0.0), (0.5, 0.7), (0.2, -1)])
    recall, trees, near = c.choice([0.3, 0.5, 0.7, 0.9, 1.0]), c.int(5, 25), c.int(1, 6)
    c.note(n=n, k=k, form=form, bound=bound, broken=len(broken), scale=scale, method=method, valid=valid, test=test, recall=recall)
    with Recorder(CLASSIFIERS[method]) as rec:
        out = m.train(method=method, valid_size=valid, test_size=test, recall_threshold=recall, n_estimators=trees, n_neighbors=near)
    own = [f for f in rec.fits if f[0] is m.clf]
    c.check(len(own) == 1, "the classifier kept is not the one that was trained")
    clf, A, given = own[0]
    train = whose(c, A, Z, "the classifier is trained on a row that is no entry")
    c.check(given.tolist() == y[train].tolist(), "a series counts as unpredictable exactly if its best model's error exceeds the threshold")
    c.check(len(set(train)) == len(train), "a row is used twice for training")
    n_valid, n_test = int(len(rows) * valid), int(len(rows) * test) if 0 < test < 1 - valid else 0
    if n_test:
        c.check(len(train) == len(rows) - n_valid - n_test, "another number of rows is trained on", got=len(train))
    if method == "RandomForest":
        c.check(len(clf.estimators_) == trees, "the forest has another number of trees")
    if method in ("KNN", "NaiveBayes"):
        ref = (KNeighborsClassifier(n_neighbors=near) if method == "KNN" else GaussianNB()).fit(A, given)
        c.close(clf.predict_proba(Z), ref.predict_proba(Z), "the classifier is not the asked one", rtol=1e-6, atol=1e-9)
    prob = clf.predict_proba(Z)[:, 1]
    said = 1 - m.pred_by_feature(X)   # 1: unpredictable
    c.check(set(np.unique(said)) <= {0, 1}, "answers other than 0 and 1")
    cut_hi = prob[said == 1].min() if said.any() else np.inf
    cut_lo = prob[said == 0].max() if (said == 0).any() else -np.inf
    c.check(cut_lo < cut_hi, "answers are not a threshold of the classifier's probabilities")
    parts = {len(a): a for a in rec.asked}
    if n_valid in parts and n_valid != len(rows):
        rows_v = whose(c, parts[n_valid], Z, "validation on a row that is no entry")
        yv, pv = y[rows_v], prob[rows_v]
        if n_test:
            c.check(not set(rows_v) & set(train), "the rows of validation are trained on")
        if yv.sum() > 0:
            best = 0.0
            for t in np.unique(pv):
                s = pv >= t
                if s[yv == 1].mean() >= recall - 1e-12:
                    best = max(best, yv[s].mean())
            s = said[rows_v] == 1
            c.check(s[yv == 1].mean() >= recall - 1e-9, "the threshold does not reach the asked recall on the validation rows", got=s[yv == 1].mean(), want=recall)
            c.close(yv[s].mean(), best, "another threshold has the asked recall and better precision", method=method)
            c.event("thresholds judged")
    if n_test:
        test_rows = [i for i in range(len(rows)) if i not in set(train)]
        test_rows = [i for i in test_rows if i not in set(rows_v)] if n_valid in parts else None
        if test_rows is not None:
            c.check(len(test_rows) == n_test, "the test set has another size", got=len(test_rows), want=n_test)
            s, t = said[test_rows], y[test_rows]
            tp = float((s * t).sum())
            pr, rc = tp / s.sum() if s.sum() else 0.0, tp / t.sum() if t.sum() else 0.0
            want = {"accuracy": (s == t).mean(), "precision": pr, "recall": rc, "f1": 2 * pr * rc / (pr + rc) if pr + rc else 0.0}
            c.check(sorted(out) == sorted(want), "other scores are reported", got=sorted(out))
            c.close([out[q] for q in sorted(want)], [want[q] for q in sorted(want)], "a reported score is wrong", order=sorted(want))
            c.event("reported scores judged")
    else:
        c.check(out == {}, "scores without a test set", got=out)
    # any rows at all: below the threshold is predictable
    Q = X[c.rng.randint(len(X), size=8)] * (1 + c.rng.normal(0, 0.3, (8, len(names))))
    Q[c.rng.rand(*Q.shape) < 0.1] = np.nan
    keep_q = Q.copy()
    F = np.nan_to_num(Q)
    pq = clf.predict_proba((F - mean) / std if scale else F)[:, 1]
    got = m.pred_by_feature(list(Q) if c.chance(0.5) else Q)
    for g, p in zip(got, pq):
        if p >= cut_hi or p <= cut_lo:
            c.check(g == int(p <= cut_lo), "a row is judged otherwise than its probability says", got=int(g), p=p, cut=(cut_lo, cut_hi))
    c.check(np.array_equal(Q, keep_q, equal_nan=True), "the given features change")
    c.check(repr(meta) == before, "the metadata change")
    d = tempfile.mkdtemp(prefix="c28-")
    path = os.path.join(d, "model")
    try:
        m.save_model(path)
        again = MetaLearnPredictability(load_model=True)
        again.load_model(path)
        c.check(list(again.pred_by_feature(Q)) == list(got), "a saved predictability answers otherwise")
        c.raises(ValueError, "a file that is not there is loaded", MetaLearnPredictability(load_model=True).load_model, os.path.join(d, "none"))
    finally:
        if os.path.exists(path):
            os.remove(path)
        os.rmdir(d)
    c.event("predictabilities judged")
    c.state("predictability", method, form, scale, valid, test, recall, bool(broken))


def detection(c):
    n, k = c.int(34, 70), c.int(2, 4)
    meta, names, models, X, lab, err, form = metadata(c, n, k, form=c.choice(["dict", "text"]), missing=c.chance(0.5))
    R = X.copy()
    for e in meta:
        if c.chance(0.5) and isinstance(e["features"], dict):
            e["features"] = {q: format(v, ".4f") if not np.isnan(v) else v for q, v in e["features"].items()}
            R[e["note"]] = [round(float(format(v, ".4f")), 4) for v in X[e["note"]]]
    frame = pd.DataFrame(meta)
    if c.chance(0.4):
        frame.index = c.rng.permutation(n) + 5
    keep_values, keep_text = list(frame["hpt_res"]), repr(meta)
    copy_of = frame.copy(deep=True)
    which = c.choice([None, {"p"}, set()])
    m = MetaDetectModelSelect(frame) if which is None else MetaDetectModelSelect(frame, params_to_scale_down=which)
    scaled = {"historical_window", "scan_window"} if which is None else which
    table = metadata_detect_preprocessor(frame) if which is None else metadata_detect_preprocessor(frame, which)
    c.check(len(table) == n, "entries are lost", got=len(table))
    for i, (row, e) in enumerate(zip(table, meta)):
        c.check(row["best_model"] == e["best_model"], "an entry has another label")
        source = eval(e["hpt_res"]) if isinstance(e["hpt_res"], str) else e["hpt_res"]
        for q in models:
            c.check(row["hpt_res"][q][-1] == err[i, models.index(q)], "an entry has other errors")
            for key, v in source[q][0].items():
                c.close(row["hpt_res"][q][0][key], v / 86400 if key in scaled else v, "windows are not given in days, or another parameter is changed", parameter=key)
        feats = {names[j]: R[i, j] for j in range(len(names))}
        c.close([np.nan_to_num(row["features"].get(q, 0.0)) for q in names], [feats[q] for q in names], "an entry has other features")
    c.event("detection tables judged")
    method = c.choice(["RandomForest", "KNN", "NaiveBayes"])
    how, size, trees, near = c.choice(["mean", "median"]), c.choice([0.1, 0.3]), c.int(5, 20), c.int(1, 5)
    c.note(n=n, k=k, form=form, method=method, how=how, size=size, scaled=sorted(scaled))
    ev = pd.DataFrame({"features": [dict(zip(names, x)) if c.chance(0.5) else repr(dict(zip(names, map(float, x)))) for x in X[:5] * 1.1]})
    c.raises((ValueError, AssertionError), "an untrained detection selection answers", m.fit_results if c.chance(0.5) else lambda: m.pred_by_feature(ev))
    with Recorder(CLASSIFIERS[method]) as rec:
        out = m.train(method=method, eval_method=how, test_size=size, n_trees=trees, n_neighbors=near)
    c.check(len(rec.fits) >= 1, "no classifier is trained")
    clf, A, y = rec.fits[-1]
    train = whose(c, A, R, "the classifier is trained on a row that is no entry")
    c.check(y.tolist() == [models[lab[i]] for i in train], "the classifier is trained on another entry's label")
    test = [i for i in range(n) if i not in set(train)]
    c.check(abs(len(test) - size * n) <= 1, "the test set has another size", got=len(test))
    em = np.mean if how == "mean" else np.median
    rep = m.report_metrics()
    c.check(list(rep["type"]) == ["fit_error", "pred_error"], "the report has other rows", got=list(rep["type"]))
    for part, rows in (("fit_error", train), ("pred_error", test)):
        guess = clf.predict(R[rows])
        want = {"meta-learn": em([err[i, models.index(g)] for i, g in zip(rows, guess)])}
        for j, q in enumerate(models):
            want[q] = em(err[rows, j])
        for q in want:
            c.close(out[part][q], want[q], "another error is reported", model=q, part=part)
            c.close(float(rep.loc[rep["type"] == part, q].iloc[0]), want[q], "the report has another error", model=q, part=part)
    got = m.fit_results()
    c.check(list(got["best_model"]) == list(clf.predict(R)), "results of the fit are not the classifier's for every entry")
    got = m.pred_by_feature(ev)
    c.check(list(got["best_model"]) == list(clf.predict(X[:5] * 1.1)), "another detector is chosen than the classifier's")
    c.check(all(a is b for a, b in zip(frame["hpt_res"], keep_values)) and repr(meta) == keep_text and frame.equals(copy_of), "the given metadata change")
    if c.chance(0.3):
        fresh = MetaDetectModelSelect(frame)
        fresh.train = lambda *a, **k: m.train(method="NaiveBayes")  # the default forest of 500 trees is slow
        rep = fresh.report_metrics()
        c.check(len(rep) == 2, "a report before training does not train")
    c.event("detection selections judged")
    c.state("detection", method, form, how, size, k, len(scaled))


def whole(c):
    """A detector is chosen for a whole series by all its features, rounded as in the metadata."""
    ts = [small(c, c.int(40, 60)) for _ in range(2)]
    with contextlib.redirect_stdout(io.StringIO()):
        feats = [TsFeatures(hw_params=False).transform(s) for s in ts]
    names = list(feats[0])
    T = np.array([[float(format(f[q], ".4f")) for q in names] for f in feats])
    n, k = 36, 3
    meta, names_, models, X, lab, err, form = metadata(c, n, k, names, T, form="dict", missing=False)
    m = MetaDetectModelSelect(pd.DataFrame(meta))
    c.raises(ValueError, "an untrained detection selection answers", m.predict, ts[0])
    with Recorder(RandomForestClassifier) as rec:
        m.train(n_trees=10, test_size=0.2)
    clf = rec.fits[-1][0]
    snaps = [gen.Frozen(s) for s in ts]
    for s, f in zip(ts, np.nan_to_num(T)):
        with contextlib.redirect_stdout(io.StringIO()):
            got = m.predict(s)
        prob = clf.predict_proba([f])[0]
        c.check(prob[list(clf.classes_).index(got)] >= prob.max() - 1e-9, "another detector is chosen than for the features", got=got, want=dict(zip(clf.classes_, prob)))
    c.check(all(f.unchanged(s) for f, s in zip(snaps, ts)), "a given series changes")
    c.event("whole series judged")
    c.note(n=n)
    c.state("whole", tuple(models))


def refused(c):
    kind = c.choice(["selection", "predictability", "detection"])
    n = 40
    meta, names, models, X, lab, err, form = metadata(c, n, 2, form="dict", missing=False)
    make = {"selection": MetaLearnModelSelect, "predictability": lambda q: MetaLearnPredictability(q, threshold=float(np.median(err[np.arange(n), lab]))),
            "detection": lambda q: MetaDetectModelSelect(pd.DataFrame(q))}[kind]
    c.raises(ValueError, "thirty entries are enough", make, meta[:30])
    gone = c.choice(["hpt_res", "features", "best_model"])
    c.raises(ValueError, "entries without what is needed are accepted", make, [{a: b for a, b in e.items() if a != gone} for e in meta])
    one = [dict(e, best_model=models[0], hpt_res={q: ({}, 0.1) for q in models}) for e in meta]
    if kind == "detection":
        c.raises(ValueError, "a list is taken for a frame", MetaDetectModelSelect, meta)
        c.raises(ValueError, "a single class is trained on", lambda: make(one).train())
    else:
        c.raises(ValueError, "missing metadata are accepted", MetaLearnModelSelect if kind == "selection" else MetaLearnPredictability)
        c.raises(ValueError, "a single class is accepted", make, one)
    m = make(meta)
    c.raises(ValueError, "an unknown method is accepted", m.train, method=c.choice(["forest", "", "randomforest", "LightGBM"]))
    if kind == "predictability":
        c.raises(ValueError, "an impossible validation size is accepted", m.train, valid_size=c.choice([0.0, 1.0, -0.1, 2.0]))
        c.raises(ValueError, "the method without a second answer is accepted", m.train, method="SVM")
    else:
        c.raises(ValueError, "an unknown evaluation is accepted", m.train, eval_method=c.choice(["max", "", "Mean"]))
        c.raises(ValueError, "an impossible test size is accepted", m.train, test_size=c.choice([0, 1, 1.0, -0.2, 3.0]))
    if kind != "detection":
        c.raises(ValueError, "an untrained model is saved", m.save_model, os.path.join(tempfile.gettempdir(), "c28-never"))
        m.train(method="NaiveBayes")
        c.raises(ValueError, "features of another type are accepted", m.pred_by_feature, c.choice([None, 3.0, "mean", tuple(map(tuple, X[:2]))]))
    c.note(kind=kind, gone=gone)
    c.event("refusing learners")
    c.state("refused", kind, gone)


SCENARIOS = [("selection", 110, 900, selection), ("predictability", 130, 1000, predictability), ("forecasts", 24, 200, forecasts), ("detection", 70, 500, detection),
             ("whole", 4, 30, whole), ("refused", 30, 200, refused)]
NEED = {"trained selections judged": 60, "preprocessed tables judged": 40, "answers judged": 60, "predictabilities judged": 60, "thresholds judged": 40,
        "reported scores judged": 25, "series answered": 60, "detection selections judged": 40, "whole series judged": 2, "refusals observed": 200}
