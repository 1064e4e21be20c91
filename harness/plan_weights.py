"""Which behaviours decide W01..W08 and V01."""
import json
import random

import weights as W
from common import laws_model

ASSUME = ["numpy's and scipy's generators and special functions are correct",
          "module F64 (IEEE doubles for TLC) evaluates the laws of the specification"]


def history_jobs(cs, hs, n, seed, tail=None):
    rnd = random.Random(seed)
    out = []
    for i in range(n):
        c = cs[i % len(cs)]
        h = rnd.choice(hs) + rnd.choice(hs)
        if tail:
            h = h + tail(rnd, c)
        out.append(("TraceWeights", "weights", "run_history", (c, h, seed * 1000003 + i, "h%d" % i)))
    return out


def tails(rnd, c):
    xs = [rnd.choice([.5, .9, .99, .999, 1 - 1e-5, 1 - 1e-7, 0, 1e-9, round(rnd.random(), 3)])
          for _ in range(2)]
    if c["kind"] == "py":           # heavy tails: 1e-7 takes 1e5 sticks
        xs = [min(x, 1 - 1e-5) for x in xs]
    xs.append(rnd.choice([1., 1.5, -.25, -1e-9, 2, float("inf"), .25]))
    if c["kind"] in ("dir", "eq", "fr"):          # the last number below one
        xs.append(1 - 2 ** -53)
    ops = [dict(op="tail", k=0, x=x) for x in xs]
    if rnd.random() < .5:
        ops.insert(rnd.randrange(3), rnd.choice([dict(op="fit", k=rnd.randint(1, 7)), dict(op="reset", k=0)]))
    rnd.shuffle(ops)
    return ops


def sizes(rnd, c):
    ops = [dict(op="complete", k=rnd.choice([1, 2, 3, 5, 8])) for _ in range(3)]
    ops.insert(rnd.randrange(4), dict(op="badcomplete", k=0, v=rnd.choice([2.5, "3", 2., [2]])))
    ops.insert(rnd.randrange(4), dict(op="fit", k=rnd.randint(1, 7)))
    ops.insert(rnd.randrange(4), dict(op="tail", k=rnd.randint(1, 7)))
    if rnd.random() < .5:
        ops.append(dict(op="assignll", k=rnd.randint(1, 3)))
    return ops


def draws(rnd, c):
    o = [dict(op="fit", k=rnd.randint(1, 7)), dict(op="random", k=rnd.choice([0, 1, 3, 6])),
         dict(op="complete", k=rnd.choice([4, 7, 9])), dict(op="tail", k=rnd.randint(1, 4))]
    if rnd.random() < .4:
        o.insert(rnd.randrange(5), dict(op="reset", k=0))
        o.append(dict(op="random", k=rnd.choice([2, 5])))
    return o


def liks(rnd, c):
    o = [dict(op="random", k=rnd.choice([1, 2, 3, 5])), dict(op="wll", k=0),
         dict(op="complete", k=rnd.choice([3, 6])), dict(op="wll", k=0), dict(op="assignll", k=rnd.randint(1, 3)),
         dict(op="wll", k=0)]
    if rnd.random() < .5:
        o[2:2] = [dict(op="fit", k=rnd.randint(1, 7)), dict(op="assignll", k=3, dd=1)]
    return o


def freqs(n):
    def f(rnd, c):
        return [dict(op="random", k=rnd.choice([1, 3, 5])), dict(op="complete", k=rnd.choice([1, 4])),
                dict(op="rassign", k=3), dict(op="rfreq", k=0, N=n), dict(op="rassign", k=3),
                dict(op="rsmall", k=0, N=n // 2, s=rnd.choice([2, 3, 10]))]
    return f


DS = ([0, 0, 1, 3], [2, 0, 2], [4, 4, 4, 1, 1])


def moment_jobs(cs, which, n, seed, hows=("random", "grow", "tail", "fresh", "refit")):
    out = []
    for i, c in enumerate(cs):
        if c["kind"] in ("eq", "fr"):
            continue
        tie = c["lkind"] in ("bid", "bb", "bn")
        inner = c["lkind"] == "bib" and 0 < c["kw"]["x"] < 1
        ds = {"W04": [[]], "W05": [] if tie else list(DS[:2]),
              "W06": [[]] + list(DS[:2])}[which]
        if c["kind"] == "dir":
            ds = [[j for j in d if j < 4] for d in ds]
        for d in ds:
            for how in hows:
                if d and c["kind"] in ("bid", "bb", "bn") and how in ("grow", "tail"):
                    continue
                s = seed * 7919 + len(out)
                if inner:
                    out.append(("TraceWeights", "weights", "pit_scenario", (c, d, how, n // 3, 3, s, "p%d" % s)))
                else:
                    out.append(("TraceWeights", "weights", "moment_scenario",
                                (c, d, how, n, 4 if c["kind"] == "dir" else 3, s, "m%d" % s)))
    return out


def jobs(prop, tier, seed):
    big = tier == "thorough"
    if prop == "V01":
        n = 20000 if big else 1500
        return ([("TraceVarWeights", "varweights", "scenario", (seed * 100003 + i, "v%d" % i)) for i in range(n)],
                dict(rule="random models, parameters and soft assignments, refits and interleaved queries",
                     assumptions=ASSUME))
    hs, r = W.histories(4 if big else 3, workers=8)
    info = dict(states=r["generated"], model=dict(module="MCWeights", distinct=r["distinct"], histories=len(hs)),
                rule="operation histories enumerated by TLC from MCWeights, in pairs, on every model; then "
                     "operations specific to the property", assumptions=ASSUME)
    if prop in ("W05", "W07"):
        info["states"] += laws_model(big)
        info["model"]["module"] += " and MCLaws"
    cs = W.special_configs() if prop == "W06" else W.configs()
    n = 24000 if big else 1600
    tail = dict(W01=None, W02=sizes, W03=tails, W04=draws, W05=draws, W06=liks, W07=liks).get(prop)
    if prop == "W08":
        tail = freqs(20000 if big else 4000)
        n = 4000 if big else 500
    js = history_jobs(cs, hs, n, seed, tail)
    if prop == "W01":
        js += history_jobs(W.special_configs(), hs, n // 4, seed + 1)
    if prop == "W06":
        js += history_jobs(cs, hs, n // 2, seed + 2, draws)
    if prop in ("W04", "W05", "W06"):
        js += moment_jobs(cs, prop, 30000 if big else 1500, seed)
    if prop == "W05":
        ml = [c for c in W.p_configs() if W.pm(c) == "max-likelihood"]
        for i, c in enumerate((W.p_configs() + ml * 4) * (12 if big else 4)):
            js.append(("TraceWeights", "weights", "pdraw_scenario",
                       (c, DS[i % 3] if i % 4 else [9, 8, 8, 7], 3 + i % 3, 1000 if W.pm(c) in ("geometric", "independent") else
                        (250 if big else 120) if W.pm(c) == "inverse-sampling" else 20, seed * 31337 + i, "q%d" % i,
                        "random" if i // (len(W.p_configs()) + 4 * len(ml)) % 2 else "random_p")))
    return js, info
