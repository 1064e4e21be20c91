"""Which behaviours decide G01..G07."""
import gibbs
from common import laws_model

ASSUME = ["numpy's, scipy's and sklearn's primitives are correct",
          "states with a covariance closer than 1e-6 to singular are not used to judge densities",
          "distributions are judged by martingale tests at 6.5 standard deviations"]


def jobs(prop, tier, seed):
    big = tier == "thorough"
    cs = gibbs.configs()
    info = dict(assumptions=ASSUME)
    js = []
    if prop in ("G01", "G04"):
        hs, states = gibbs.plans(big)
        info.update(states=states, model=dict(module="MCGibbs", histories=len(hs)),
                    rule="fit histories enumerated by TLC from MCGibbs, on random models, data and priors, against a "
                         "reference chain of the same seed run one sweep at a time")
        reps = 12 if big else (4 if prop == "G01" else 2)
        for k in range(reps):
            for i, h in enumerate(hs):
                js.append(("TraceGibbs", "gibbs", "schedule",
                           (seed * 10007 + k * 1009 + i, "s%d" % len(js), cs[(i + k) % len(cs)], h, prop)))
    elif prop in ("G02", "G03"):
        n, T = (40, 120) if big else (8, 40)
        if prop == "G03":
            info.update(states=laws_model(big), model=dict(module="MCLaws"))
        info["rule"] = "chains of random problems, every sweep validated; statistics per chain"
        for k in range(n):
            for i, c in enumerate(cs):
                js.append(("TraceGibbs", "gibbs", "chain",
                           (seed * 10007 + 101 * len(js), "c%d" % len(js), c, T, prop)))
        for i, c in enumerate(cs):         # long chains for the statistics
            js.append(("TraceGibbs", "gibbs", "chain",
                       (seed * 20011 + 77 * i, "L%d" % i, c, 1500 if big else 250, prop, 8)))
    elif prop == "G08":
        n = 3000 if big else 300
        info["rule"] = "random problems fitted and plotted, the drawn figure read back"
        for i in range(n):
            js.append(("TraceGibbs", "gibbs", "plots",
                       (seed * 40009 + i, "p%d" % i, cs[i % len(cs)], i % 8 == 7)))
    elif prop == "G09":
        ex = gibbs.exact_configs()
        st = gibbs.posterior_model(big)
        info.update(states=st, model=dict(module="MCPosterior"),
                    rule="independent chains on three observations against the posterior enumerated by the "
                         "specification; chains of random problems, every sweep validated")
        ex.sort(key=gibbs.sweeps_affordable)
        for c in ex:
            for _ in range(12 if big else 2):
                M, T = gibbs.sweeps_affordable(c)
                i = len(js)
                js.append(("TraceGibbs", "gibbs", "posterior",
                           (seed * 50021 + i, "e%d" % i, c, M * (2 if big else 1), T * (2 if big else 1))))
        for i in range(len(ex) * (20 if big else 4)):
            js.append(("TraceGibbs", "gibbs", "chain",
                       (seed * 70001 + 101 * i, "c%d" % i, ex[i % len(ex)], 120 if big else 40, prop)))
    else:
        n = 4000 if big else 400
        info["rule"] = "random problems fitted and queried in every form"
        for i in range(n):
            js.append(("TraceGibbs", "gibbs", "queries", (seed * 30011 + i, "q%d" % i, cs[i % len(cs)], prop)))
    return js, info
