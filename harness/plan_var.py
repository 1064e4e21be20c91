"""Which behaviours decide V02..V05."""
import random

import var

ASSUME = ["numpy's and sklearn's primitives are correct",
          "distributions closer than 1e-6 to singular are not used to judge densities and objectives",
          "changes of the objective within 1e-10 of the tolerance may be judged either way"]
GRADE = [1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8, 0.]


def jobs(prop, tier, seed):
    big = tier == "thorough"
    cs = var.configs()
    info = dict(assumptions=ASSUME)
    js = []
    rnd = random.Random(seed)
    if prop in ("V02", "V03"):
        hs, states = var.plans(big)
        if prop == "V03":
            states += var.bound(big)
        info.update(states=states, model=dict(module="MCVar" + (" and MCBound" if prop == "V03" else ""), histories=len(hs)),
                    rule="fit histories enumerated by TLC from MCVar, against a reference of the same seed run one "
                         "iteration at a time; the specification computes every update and the objective")
        n = 4000 if big else 500
        for i in range(n):
            h = [dict(f) for f in rnd.choice(hs)]
            L = sum(f["T"] for f in h)
            if prop == "V03" and i % 2:          # longer fits, that do converge
                for f in h:
                    f["T"] *= rnd.choice([1, 3, 6])
                L = min(sum(f["T"] for f in h), 60 if big else 36)
            if prop == "V02":
                tols = [-1.] * 3
            else:
                tols = sorted(rnd.sample(GRADE, 3), reverse=True)
            js.append(("TraceVar", "var", "sequence",
                       (seed * 40009 + i, "v%d" % i, cs[i % len(cs)], L, h, tols)))
    else:
        info["rule"] = "random problems fitted and queried in every form"
        for i in range(6000 if big else 600):
            js.append(("TraceVar", "var", "queries", (seed * 50021 + i, "q%d" % i, cs[i % len(cs)], prop)))
    return js, info
