"""Which behaviours decide L01..L06."""
import random

import gibbs
import life
import units
import varweights  # noqa: F401

ASSUME = ["results are compared bit for bit, and as numbers (1e-6) across layouts of the same data (L04)",
          "the spectral consensus draws from numpy's global generator and is not compared"]


def jobs(prop, tier, seed):
    big = tier == "thorough"
    cs = gibbs.configs()
    vs = [c for c in cs if c["kind"] in gibbs.VARKINDS]
    if prop == "L05":
        return ([("TraceUnits", "units", "scenario", (seed * 80021 + i, "u%d" % i, cs[i % len(cs)]))
                 for i in range(6000 if big else 600)],
                dict(assumptions=["numpy's and sklearn's primitives are correct",
                                  "a change of units alters roundings: results are compared as numbers (1e-6)"],
                     states=units.model(big), model=dict(module="MCUnits"),
                     rule="pairs of random problems related by a change of units, fitted and queried alike"))
    hs, states = life.plans(big, ("data", "init", "groups", "points") if prop == "L06" else ())
    info = dict(assumptions=ASSUME, states=states, model=dict(module="MCSession", histories=len(hs)),
                rule="histories enumerated by TLC from MCSession, replayed on random models and data; what objects "
                     "show is compared through the terms of Session")
    js = []
    rnd = random.Random(seed)

    def add(fn, n, *a, pool=None):
        p = pool or cs
        for i in range(n):
            js.append(("TraceLife", "life", fn, (seed * 60013 + 17 * len(js), "%s%d" % (fn, i), p[i % len(p)]) + a))

    def hist(fn, n, want):
        ok = [h for h in hs if want(h)]
        for i in range(n):
            c = rnd.choice(vs if rnd.random() < .65 else cs)
            js.append(("TraceLife", "life", fn, (seed * 60013 + 17 * len(js), "%s%d" % (fn, i), c, rnd.choice(ok))))
    fits = ("gfit", "vfit")
    if prop == "L01":
        hist("l01", 3000 if big else 300, lambda h: any(e["op"] not in fits for e in h))
        for i in range(2000 if big else 200):
            js.append(("TraceVarWeights", "varweights", "scenario", (seed * 10007 + i, "u%d" % i)))
    elif prop == "L02":
        hist("l02", 3000 if big else 300,
             lambda h: sum(e["op"] in fits for e in h) >= 2 and any(e["op"] in fits and not e["warm"] for e in h[1:]))
    elif prop == "L03":
        hist("l03", 2000 if big else 200, lambda h: h[0]["op"] in fits)
        add("l03_weights", 1500 if big else 150)
        add("l03_bad", len(cs))
        add("l03_process", 34 if big else 6)
    elif prop == "L06":
        hist("l06", 4000 if big else 400, lambda h: any(e["op"][:2] == "no" for e in h))
        add("l06_weights", 2000 if big else 200)
    else:
        add("l04", 2000 if big else 200)
        add("l04_weights", 300 if big else 60)
    return js, info
