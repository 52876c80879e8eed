"""C13: intervals, percentage changes and anomaly responses."""
import math

import numpy as np
import pandas as pd
from kats.consts import TimeSeriesData
from kats.detectors.detector_consts import (AnomalyResponse, ChangePointInterval, ConfidenceBand, PercentageChange)
from scipy import stats

import gen

PROPERTY = "C13"
RULE = ("random series (1-4 columns, regular and irregular times) cut into intervals of 1-60 points, extended in "
        "steps; pairs of intervals compared with both t-scores, FDR methods and minimum changes; random histories of "
        "updates of responses; distinct = (columns, sizes, options, direction) signature")
ASSUMPTIONS = ["values are finite and no interval compared by a t-test has constant values throughout",
               "means of control intervals are not near zero",
               "points on a limit (spike threshold, confidence bound at one) are set aside"]


def table(c, n, k):
    base = c.choice([50.0, 10.0, -20.0])
    return base + c.rng.normal(0, c.choice([0.5, 2.0, 5.0]), (n, k)) + np.where(c.rng.rand(n, k) < 0.05, 12.0, 0)


def series(t, v, names, time_name="time"):
    if v.shape[1] == 1:
        return TimeSeriesData(time=pd.Series(t, name=time_name), value=pd.Series(v[:, 0], name=names[0]))
    return TimeSeriesData(pd.DataFrame({time_name: t, **{n: v[:, i] for i, n in enumerate(names)}}),
                          time_col_name=time_name)


def mean(x):
    return math.fsum(x) / len(x)


def var(x):
    if len(x) == 1:
        return 0.0
    m = mean(x)
    return math.fsum((a - m) ** 2 for a in x) / (len(x) - 1)


def per_column(x, k):
    """An answer of the code as a list of one number per column."""
    a = np.asarray(x, dtype=float).reshape(-1)
    return a if len(a) == k else np.full(k, np.nan)


def interval(c):
    n, k = c.choice([2, 5, 20, 60]), c.choice([1, 1, 2, 3])
    t = gen.regular(c, n, c.choice(gen.TICKS)) if c.chance(0.6) else gen.irregular(c, n)
    names = gen.names(c, k)
    v = table(c, n, k)
    i, j = sorted(c.rng.choice(n + 1, 2, replace=False))
    start = t[i] - pd.Timedelta(c.choice([0, 0, 1]) if i == 0 or (t[i] - t[i - 1]).total_seconds() > 1 else 0, "s")
    end = t[j] if j < n else t[-1] + pd.Timedelta(1, "s")
    ts = series(t, v, names, c.choice(gen.TIME_NAMES))
    snap = gen.Frozen(ts)
    iv = ChangePointInterval(start, end) if k == 1 else ChangePointInterval(start, end, num_series=k)
    c.check(len(iv) == 0 and iv.data is None, "a new interval is empty")
    cut = c.int(i + 1, n) if c.chance(0.5) else n
    iv.data = series(t[:cut], v[:cut], names) if cut < n else ts
    keep = [r for r in range(n) if start <= t[r] < end and r < cut]
    c.event("intervals filled")

    def judge(label):
        c.check(len(iv) == len(keep), label + ": number of points", got=len(iv), want=len(keep))
        c.close(np.asarray(iv.data).reshape(len(keep), k), v[keep], label + ": points", rtol=0, atol=0)
        c.close(per_column(iv.mean_val, k), [mean(v[keep, q]) for q in range(k)], label + ": mean", rtol=1e-9)
        c.close(per_column(iv.variance_val, k), [var(v[keep, q]) for q in range(k)], label + ": variance", rtol=1e-7)

    def spikes(label):
        if len(keep) < 3:
            return
        want = []
        for q in range(k):
            m, s = mean(v[keep, q]), math.sqrt(var(v[keep, q]))
            z = [(v[r, q] - m) / s for r in keep]
            if any(abs(x - 2.0) < 1e-9 for x in z):
                return
            want.append([(t[r], v[r, q], x) for r, x in zip(keep, z) if x >= 2.0])
        got = iv.spikes
        if k == 1:
            got, want = [got], want
        else:
            want = [w for w in want if w]
        c.check(len(got) == len(want), label + ": columns with spikes", got=len(got), want=len(want))
        for g, w in zip(got, want):
            c.check([pd.Timestamp(s.time) for s in g] == [x[0] for x in w], label + ": spike times",
                    got=[s.time for s in g], want=[x[0] for x in w])
            c.close([s.value for s in g], [x[1] for x in w], label + ": spike values")
            c.close([s.n_sigma for s in g], [x[2] for x in w], label + ": spike scores", rtol=1e-6)
            c.event("spikes", len(w))

    judge("filled")
    if c.chance(0.7):
        spikes("filled")
    if cut < n:
        while cut < n:
            nxt = min(n, cut + c.int(1, 10))
            iv.extend_data(series(t[cut:nxt], v[cut:nxt], names))
            keep += [r for r in range(cut, nxt) if start <= t[r] < end]
            cut = nxt
            c.event("intervals extended")
            judge("extended")
        spikes("extended")
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.check(iv.start_time_str == start.strftime("%Y-%m-%d") and iv.end_time_str == end.strftime("%Y-%m-%d"),
            "dates as text")
    c.note(n=n, k=k, i=int(i), j=int(j))
    c.state(n, k, int(i), int(j))


def adjusted(p, method):
    """The adjusted p-values of the textbook procedures."""
    m = len(p)
    order = sorted(range(m), key=lambda i: p[i])
    out = [0.0] * m
    if method in ("fdr_bh", "fdr_by"):
        f = sum(1.0 / i for i in range(1, m + 1)) if method == "fdr_by" else 1.0
        low = 1.0
        for r in range(m - 1, -1, -1):
            low = min(low, p[order[r]] * m * f / (r + 1))
            out[order[r]] = min(low, 1.0)
    elif method == "bonferroni":
        out = [min(1.0, x * m) for x in p]
    else:  # holm
        high = 0.0
        for r in range(m):
            high = max(high, (m - r) * p[order[r]])
            out[order[r]] = min(1.0, high)
    return out


def reference(cur, prev, corrected, method=None, skip=False, alpha=0.05):
    """Everything PercentageChange reports, from plain lists of columns."""
    k = len(cur)
    n1, n2 = len(prev[0]), len(cur[0])
    df = n1 + n2 - 2
    out = {x: [] for x in ("ratio", "perc", "diff", "prev", "t", "p", "ci_u", "ci_l", "up", "lo")}
    for a, b in zip(cur, prev):
        ma, mb, va, vb = mean(a), mean(b), var(a), var(b)
        out["ratio"].append(ma / mb)
        out["perc"].append((ma / mb - 1) * 100)
        out["diff"].append(ma - mb)
        out["prev"].append(mb)
        if n1 == n2 == 1:
            for x in ("t", "p", "ci_u", "ci_l"):
                out[x].append(math.nan)
        else:
            sp = math.sqrt(((n1 - 1) * vb + (n2 - 1) * va) / df)
            mult = sp * math.sqrt(1 / n1 + 1 / n2)
            width = mult if corrected else sp
            # several columns with enough points always use the ordinary t-test
            s = mult if (k > 1 and n1 > 1 and n2 > 1) else width
            tv = (ma - mb) / s
            out["t"].append(tv)
            out["p"].append(2 * stats.t.sf(abs(tv), df))
            q = stats.t.isf(alpha / 2, df)
            out["ci_u"].append(mb + q * width)
            out["ci_l"].append(mb - q * width)
        n = min(n1, n2)
        if n > 1:
            x, y = a[-n:], b[-n:]
            mx, my = mean(x), mean(y)
            cov = math.fsum((p - mx) * (r - my) for p, r in zip(x, y)) / (n - 1) / n
            sq = va / (n2 * mb ** 2) - 2 * ma * cov / mb ** 3 + vb * ma ** 2 / (n1 * mb ** 4)
            h = stats.norm.isf(alpha / 2) * math.sqrt(abs(sq))
            out["up"].append(ma / mb + h)
            out["lo"].append(ma / mb - h)
    if k > 1 and not skip and not n1 == n2 == 1:
        out["p"] = adjusted(out["p"], method)
        out["t"] = [math.copysign(stats.t.isf(p / 2, df), t) for p, t in zip(out["p"], out["t"])]
    return out


def judge_change(c, pc, ref, k, n1, n2, minimum, label=""):
    c.event("changes judged")
    c.close(per_column(pc.ratio_estimate, k), ref["ratio"], label + "ratio", rtol=1e-9)
    c.close(per_column(pc.perc_change, k), ref["perc"], label + "percentage", rtol=1e-7, atol=1e-8)
    c.close(per_column(pc.mean_difference, k), ref["diff"], label + "difference", rtol=1e-7, atol=1e-9)
    c.close(per_column(pc.mean_previous, k), ref["prev"], label + "mean of the control", rtol=1e-9)
    d = [pc.direction] if k == 1 else list(pc.direction)
    c.check(d == ["up" if x > 0 else "down" for x in ref["perc"]], label + "direction", got=d, want=ref["perc"])
    if n1 > 1 or n2 > 1:
        c.close(per_column(pc.ci_upper, k), ref["ci_u"], label + "upper bound", rtol=1e-7)
        c.close(per_column(pc.ci_lower, k), ref["ci_l"], label + "lower bound", rtol=1e-7)
        got_p, got_t = per_column(pc.p_value, k), per_column(pc.score, k)
        c.close(got_p, ref["p"], label + "p-value", rtol=1e-6, atol=1e-13)
        for i in range(k):
            if abs(abs(ref["perc"][i]) - minimum) < 1e-6:
                continue
            small = abs(ref["perc"][i]) < minimum
            c.event("scores clipped" if small else "scores kept")
            if small:
                c.check(got_t[i] == 0, label + "score below the minimum change", got=got_t[i])
            elif ref["p"][i] > 1e-9:
                c.close(got_t[i], ref["t"][i], label + "score", rtol=1e-5, atol=1e-8, n=(n1, n2))
            else:
                c.check(got_t[i] * ref["t"][i] > 0 and abs(got_t[i]) > 5, label + "sign of a large score",
                        got=got_t[i], want=ref["t"][i])
    if min(n1, n2) > 1:
        c.close(per_column(pc.perc_change_upper, k), [(x - 1) * 100 for x in ref["up"]], label + "upper change", rtol=1e-6, atol=1e-7)
        c.close(per_column(pc.perc_change_lower, k), [(x - 1) * 100 for x in ref["lo"]], label + "lower change", rtol=1e-6, atol=1e-7)
        sig = [pc.stat_sig] if k == 1 else list(pc.stat_sig)
        for g, u, lo in zip(sig, ref["up"], ref["lo"]):
            if min(abs(u - 1), abs(lo - 1)) > 1e-9:
                c.check(bool(g) == (not (u > 1 and lo < 1)), label + "significance", got=g, bounds=(lo, u))
                c.event("significant" if g else "not significant")


def change(c):
    k = c.choice([1, 1, 2, 3, 5])
    n1, n2 = c.choice([1, 2, 5, 12, 40]), c.choice([1, 2, 5, 12, 40])
    n = n1 + n2
    t = gen.regular(c, n, c.choice(gen.TICKS)) if c.chance(0.7) else gen.irregular(c, n)
    names = gen.names(c, k)
    v = table(c, n, k)
    v[n1:] += c.choice([0.0, 0.3, 2.0, -4.0]) * (c.rng.rand(k) < 0.7)
    ts = series(t, v, names)
    snap = gen.Frozen(ts)
    prev = ChangePointInterval(t[0], t[n1], num_series=k)
    cur = ChangePointInterval(t[n1], t[-1] + pd.Timedelta(1, "s"), num_series=k)
    prev.data = ts
    cur.data = ts
    corrected = c.chance(0.5)
    minimum = c.choice([0.0, 0.0, 1.0, 5.0])
    method = c.choice(["fdr_bh", "fdr_bh", "fdr_by", "bonferroni", "holm"])
    skip = c.chance(0.3)
    pc = PercentageChange(current=cur, previous=prev, method=method, skip_rescaling=skip,
                          use_corrected_scores=corrected, min_perc_change=minimum)
    ref = reference(v[n1:].T.tolist(), v[:n1].T.tolist(), corrected, method, skip)
    order = c.choice(["score first", "bounds first"])
    if order == "bounds first" and min(n1, n2) > 1:
        pc.stat_sig
    judge_change(c, pc, ref, k, n1, n2, minimum)
    c.check(snap.unchanged(ts), "the series is left as it was")
    c.note(k=k, n1=n1, n2=n2, corrected=corrected, method=method, skip=skip, minimum=minimum)
    c.state(k, n1, n2, corrected, method, skip, minimum)


def responses(c):
    k, n = c.choice([1, 1, 2, 3]), c.choice([1, 2, 5, 15])
    names = gen.names(c, k)
    freq = c.choice(gen.TICKS)
    t = gen.regular(c, n + 40, freq)
    parts = ["scores", "lower", "upper", "predicted_ts", "anomaly_magnitude_ts", "stat_sig_ts"]
    have_cb, have_pred, have_sig = c.chance(0.7), c.chance(0.7), c.chance(0.7)
    have = {"scores": 1, "anomaly_magnitude_ts": 1, "lower": have_cb, "upper": have_cb,
            "predicted_ts": have_pred, "stat_sig_ts": have_sig}

    def make(times):
        m = {p: [(x, c.rng.normal(0, 1, k)) for x in times] for p in parts if have[p]}
        ts = {p: series(pd.DatetimeIndex(times), np.array([r for _, r in m[p]]).reshape(-1, k), names) for p in m}
        r = AnomalyResponse(scores=ts["scores"],
                            confidence_band=ConfidenceBand(lower=ts["lower"], upper=ts["upper"]) if have_cb else None,
                            predicted_ts=ts.get("predicted_ts"), anomaly_magnitude_ts=ts["anomaly_magnitude_ts"],
                            stat_sig_ts=ts.get("stat_sig_ts"))
        return r, m

    def get(r, p):
        if p in ("lower", "upper"):
            return None if r.confidence_band is None else getattr(r.confidence_band, p)
        return getattr(r, p)

    def judge(r, m, label):
        for p in parts:
            ts = get(r, p)
            c.check((ts is None) == (p not in m), f"{label}: {p} present")
            if ts is None:
                continue
            c.check(list(pd.DatetimeIndex(ts.time)) == [x for x, _ in m[p]], f"{label}: times of {p}",
                    got=list(ts.time), want=[x for x, _ in m[p]])
            if k > 1:
                c.check(list(ts.value.columns) == names, f"{label}: columns of {p}", got=list(ts.value.columns))
            c.close(np.asarray(ts.value, dtype=float).reshape(-1, k), [list(x) for _, x in m[p]], f"{label}: values of {p}", rtol=0, atol=0)
        c.event("responses compared")

    r, m = make(t[:n])
    c.check(r.num_series == k and (k == 1 or r.key_mapping == names), "columns of the response")
    end, trace = n, []
    for _ in range(c.int(1, 6)):
        op = c.choice(["update", "inplace", "inplace", "last", "extend", "extend none"])
        trace.append(op)
        vals = {p: c.rng.normal(0, 1, k) for p in parts}
        arg = {p: (float(x[0]) if k == 1 else (x if c.chance(0.7) else list(x))) for p, x in vals.items()}
        kw = dict(score=arg["scores"], ci_upper=arg["upper"], ci_lower=arg["lower"], pred=arg["predicted_ts"],
                  anom_mag=arg["anomaly_magnitude_ts"], stat_sig=arg["stat_sig_ts"])
        if op == "update":
            r.update(time=t[end], **kw)
            for p in m:
                m[p] = m[p][1:] + [(t[end], vals[p])]
            end += 1
        elif op == "inplace":
            when = c.choice([x for x, _ in m["scores"]]) if c.chance(0.8) else t[-1] + pd.Timedelta(9, "D")
            r.inplace_update(time=when, **kw)
            for p in m:
                m[p] = [(x, vals[p] if x == when else y) for x, y in m[p]]
        elif op == "last":
            q = c.int(1, len(m["scores"]) + 1)
            last = r.get_last_n(q)
            c.check(last.num_series == k, "columns of the last points")
            judge(last, {p: m[p][-q:] for p in m}, "last points")
            judge(r, m, "whole response after taking its last points")
            if c.chance(0.5):
                r, m = last, {p: m[p][-q:] for p in m}
        elif op == "extend":
            q = c.int(1, 4)
            o, mo = make(t[end:end + q])
            end += q
            r.extend(o, validate=False)
            judge(o, mo, "the other response")
            m = {p: m[p] + mo[p] for p in m}
        else:
            o, _ = make(t[end:end + 1])
            which = c.choice(["confidence_band", "predicted_ts", "stat_sig_ts"])
            if getattr(o, which) is not None:
                a, b = (r, o) if c.chance(0.5) else (o, r)
                keep = getattr(o, which)
                setattr(o, which, None)
                c.raises((ValueError,), f"extending when only one has {which}", a.extend, b, validate=False)
                setattr(o, which, keep)
            c.raises((TypeError,), "extending by something else", r.extend, m)
        judge(r, m, op)
    c.note(k=k, n=n, trace=trace, have=sorted(p for p in have if have[p]))
    c.state(k, n, trace, sorted(p for p in have if have[p]))


SCENARIOS = [("interval", 200, 5000, interval), ("change", 260, 8000, change), ("responses", 200, 5000, responses)]
NEED = {"intervals extended": 40, "changes judged": 120, "responses compared": 300, "scores clipped": 15,
        "refusals observed": 50, "spikes": 40}
