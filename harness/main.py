"""check.sh <property> | check.sh --replay <file>"""
import importlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
warnings.showwarning = lambda *a, **k: None  # some libraries switch their warnings back on
import logging  # noqa: E402

logging.disable(logging.CRITICAL)

import core  # noqa: E402

DEADLINE = {"quick": 600, "thorough": 3 * 3600}
LEVEL = "exploration"


def findings(prop):
    path = os.path.join(core.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        return {x["id"]: x["what_fails"] for x in json.load(f)["findings"] if x["property"] == prop}


def worker(module, todo, seed, tier, known, out, stop, end):
    log = core.Log(known)
    cut = 0
    for n, (name, i, fn) in enumerate(todo):
        if os.path.exists(stop) or time.time() > end:
            cut = len(todo) - n
            break
        core.run_case(module, name, fn, i, seed, tier, log)
        if log.violations:
            with open(stop, "w") as f:
                f.write("1")
            cut = len(todo) - n - 1
            break
    log.cut = cut
    with open(out + ".part", "wb") as f:
        pickle.dump(log, f)
    os.rename(out + ".part", out)


def main():
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            r = json.load(f)
        module = importlib.import_module("checks." + r["property"].lower())
        log = core.Log(findings(r["property"]))
        fn = {n: fn for n, _, _, fn in module.SCENARIOS}[r["scenario"]]
        core.run_case(module, r["scenario"], fn, r["index"], r["seed"], r["tier"], log)
        for v in log.violations:
            print(json.dumps(v, indent=1))
        print("violated" if log.violations else "held on this case")
        return 1 if log.violations else 0

    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    module = importlib.import_module("checks." + prop.lower())
    import kats

    where = os.path.realpath(kats.__file__)
    src = os.environ.get("VERIF_SRC", "/repo")  # another copy, for trying planted bugs
    if not where.startswith(src + "/"):
        print(f"error: kats was imported from {where}, not from {src}")
        return 3
    if hasattr(module, "prepare"):
        module.prepare()
    known = findings(prop)
    todo = core.plan(module, tier)
    jobs = min(getattr(module, "JOBS", os.cpu_count() or 1), len(todo))
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    end = t0 + DEADLINE[tier]
    stop = os.path.join(scratch, "stop")
    try:
        pids = {}
        sys.stdout.flush()
        for w in range(jobs):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)  # whatever the code starts is ended with the worker
                    os.chdir(scratch)
                    worker(module, todo[w::jobs], seed, tier, known,
                           os.path.join(scratch, f"w{w}"), stop, end)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = w
        crashed = []
        while pids:
            pid, status = os.wait()
            w = pids.pop(pid, None)
            if w is not None:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
            if w is not None and status != 0:
                crashed.append((w, status))
        logs = []
        for w in range(jobs):
            path = os.path.join(scratch, f"w{w}")
            if os.path.exists(path):
                with open(path, "rb") as f:
                    logs.append(pickle.load(f))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    total = core.Log()
    cut = 0
    for log in logs:
        total.events.update(log.events)
        total.states |= log.states
        total.known.update(log.known)
        total.per_scenario.update(log.per_scenario)
        total.cases += log.cases
        total.skipped += log.skipped
        total.violations += log.violations
        total.errors += log.errors
        total.samples += log.samples
        cut += log.cut
    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": total.cases,
            "distinct_nontrivial": len(total.states),
            "rule": module.RULE,
            "samples": total.samples[:6] or [{"note": "no case completed"}],
            "oracle_decisions": total.events["oracle decisions"],
            "cases_judged": total.events["cases judged"],
            "cases_outside_domain": total.skipped,
            "cases_not_run": cut,
            "cases_per_scenario": dict(sorted(total.per_scenario.items())),
            "events_observed": {k: v for k, v in sorted(total.events.items())
                                if k not in ("oracle decisions", "cases judged")},
            "known_findings_seen": dict(total.known),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(total.violations),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")
    print(f"{prop} {tier} seed={seed}: {total.cases} cases, {total.events['oracle decisions']} oracle "
          f"decisions, {len(total.states)} distinct states, {total.skipped} outside the domain, "
          f"{cut} not run, {wall:.1f} s")
    for k in sorted(total.known):
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {k}: {known[k]} ({total.known[k]} cases)")
    if total.violations:
        os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
        for v in total.violations[:3]:
            path = os.path.join(core.VERIF, "replays", f"{prop}-{v['scenario']}-{v['index']}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['scenario']}#{v['index']}: {v['what']}")
            for k, d in v["detail"].items():
                print(f"    {k}: {d}")
            print(f"    case: {v['case']}")
        return 1
    for e in total.errors[:3]:
        print("error:", e)
    for w, status in crashed:
        print(f"error: worker {w} ended with status {status}")
    if total.errors or crashed:
        return 3
    # inconclusive, not held: the monitors did not get to see enough
    need = getattr(module, "NEED", {})
    for name, n, t, _ in module.SCENARIOS:
        want = n if tier == "quick" else t
        if total.per_scenario[name] < max(1, int(0.3 * want)):
            print(f"inconclusive: scenario {name} completed {total.per_scenario[name]} of {want} cases")
            return 3
    for name, n in need.items():
        if total.events[name] < n:
            print(f"inconclusive: observed {total.events[name]} x '{name}', need {n}")
            return 3
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
