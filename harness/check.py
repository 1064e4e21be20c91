#!/usr/bin/env python
"""Decides one property: generates behaviours, runs them on the library and has
TLC validate what was observed against the specification.

  check.py PROPERTY            tier and seed from VERIF_TIER and VERIF_SEED
  check.py --replay FILE       runs again what a VIOLATION line points at
"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
from common import VERIF, check_traces, cleanup, known_findings  # noqa: E402

PLANS = {}
for _m, _ps in (("plan_weights", "W01 W02 W03 W04 W05 W06 W07 W08 V01"),
                ("plan_gibbs", "G01 G02 G03 G04 G05 G06 G07 G08 G09"),
                ("plan_var", "V02 V03 V04 V05"),
                ("plan_life", "L01 L02 L03 L04 L05 L06")):
    for _p in _ps.split():
        PLANS[_p] = _m
MAXBYTES = 150000000
PROCS = min(8, os.cpu_count() or 1)


def run_job(job):
    """job = (trace module, python module, function, args) -> scenario."""
    _, mod, fn, args = job
    common.REC.clear()
    return getattr(importlib.import_module(mod), fn)(*args)


def guarded(job):
    try:
        return run_job(job), None
    except Exception as e:
        tb = traceback.format_exc()
        if common.in_library(e):   # a call of the scenario that nobody expects to fail
            return dict(id=str(job[3][1]) if len(job[3]) > 1 else job[2], crash=tb[-3000:],
                        evs=[dict(op="crash", err=type(e).__name__)]), None
        return None, tb          # machinery failure, not a verdict


def validate(prop, jobs, scenarios, chunk):
    """TLC verdicts on the scenarios: (bad, generated, steps)."""
    bad, gen = [], 0
    mods = sorted({j[0] for j in jobs})
    for m in mods:
        idx = [i for i, j in enumerate(jobs) if j[0] == m]
        parts, size = [[]], 0
        for i in idx:                    # bounded by what TLC holds in memory
            n = len(json.dumps(scenarios[i]))
            if parts[-1] and (size + n > MAXBYTES or len(parts[-1]) >= chunk):
                parts.append([])
                size = 0
            parts[-1].append(i)
            size += n
        for part in parts:
            for _ in range(3):
                try:
                    b, st = check_traces(m, [scenarios[i] for i in part], prop, workers=PROCS, timeout=3000)
                    break
                except common.IllFormed as e:    # observed values the laws have no meaning for
                    bad.append(dict(i=part[e.t], l=e.l, clauses=[(prop, "ill-formed observation")]))
                    part = part[:e.t] + part[e.t + 1:]
            else:
                continue
            gen += st["generated"]
            for x in b:
                bad.append(dict(i=part[x["t"]], l=x["l"], clauses=x["clauses"]))
    return bad, gen


def describe(s):
    return {k: v for k, v in s.items() if k != "evs"}


def clip(e):
    """A readable version of an event."""
    out = {}
    for k, v in e.items():
        t = json.dumps(v)
        out[k] = v if len(t) < 1500 else t[:1500] + "..."
    return out


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = importlib.import_module(PLANS[prop])
    jobs, info = plan.jobs(prop, tier, seed)
    with mp.Pool(PROCS) as pool:
        res = pool.map(guarded, jobs, chunksize=1 if len(jobs) < 200 else min(16, len(jobs) // (4 * PROCS)))
    errs = [e for _, e in res if e]
    if errs:
        raise RuntimeError("%d of %d drivers failed:\n%s" % (len(errs), len(jobs), errs[0]))
    t1 = time.time()
    scen = [s for s, _ in res]
    ok = [i for i, s in enumerate(scen) if s is not None and s["evs"]]
    jobs = [("TraceCrash",) + tuple(jobs[i][1:]) if "crash" in scen[i] else jobs[i] for i in ok]
    scen = [scen[i] for i in ok]
    bad, gen = validate(prop, jobs, scen, 4000)
    known = known_findings(prop)
    viol, hit = [], set()
    for b in bad:
        s = scen[b["i"]]
        for p, clause in b["clauses"]:
            if p != prop:
                continue
            k = [x for x in known if x[0] == clause and x[1] in json.dumps(describe(s))]
            if k:
                hit.add(k[0])
            else:
                viol.append((b, clause))
    steps = sum(len(s["evs"]) for s in scen)
    rep = os.path.join(VERIF, "replays")
    lines = []
    for n, (b, clause) in enumerate(viol[:5]):
        os.makedirs(rep, exist_ok=True)
        s = scen[b["i"]]
        path = os.path.join(rep, "%s-%d.json" % (prop, n))
        json.dump(dict(property=prop, clause=clause, step=b["l"], job=jobs[b["i"]],
                       scenario=dict(describe(s), evs=[clip(e) for e in s["evs"][:b["l"] + 1]])),
                  open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("# %s: clause '%s' fails at step %d of %s" % (prop, clause, b["l"], describe(s).get("id")))
    smp = [dict(describe(scen[i]), evs=[clip(e) for e in scen[i]["evs"][:3]])
           for i in sorted({0, len(scen) // 2, len(scen) - 1}) if scen]
    ops = {}
    for s in scen:
        for e in s["evs"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=gen + info.get("states", 0), transitions=steps,
                            traces_validated_against_impl=len(scen), samples=smp,
                            operations=ops, model=info.get("model", {}), clauses=info.get("clauses", []),
                            rule=info.get("rule", "")),
              assumptions=info.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for c, s, text in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    for x in lines:
        print(x)
    print("%s %s: %d traces, %d steps, %d states, %d violations (drivers %.1fs, total %.1fs)" % (
        prop, tier, len(scen), steps, ev["coverage"]["states"], len(viol), t1 - t0, time.time() - t0))
    return 1 if viol else 0


def replay(path):
    r = json.load(open(path))
    job = r["job"]
    s, err = guarded(job)
    if err:
        raise RuntimeError(err)
    if job[0] == "TraceCrash" and "crash" not in s:
        return 0
    bad, _ = validate(r["property"], [job], [s], 10)
    for b in bad:
        print("step", b["l"], b["clauses"])
        print(json.dumps(clip(s["evs"][b["l"]]), indent=1))
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        rc = replay(sys.argv[2]) if sys.argv[1] == "--replay" else main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        cleanup()
    sys.exit(rc)
