"""Variational fits of the weighting models, recorded."""
import random

from common import np, fnum, vec, mat, call, digest
from pyrichlet import weight_models as wm
import weights as W

VKINDS = ("dir", "dp", "py", "geo", "eq", "fr")
QUERIES = ("mean_log_w_j", "mean_w_j", "mode_w_j")
SCALARS = ("mean_log_p_w", "mean_log_q_w", "mean_log_p_d__w")


def configs(rnd):
    k = rnd.choice(VKINDS)
    if k == "dir":
        al = [rnd.choice([.3, .5, 1, 2, 3.5]) for _ in range(rnd.randint(1, 5))]
        return W.cfg(k, dict(n=len(al), alpha=al), W.par(dalpha=al, n=len(al)))
    if k == "dp":
        al = rnd.choice([.2, .5, 1, 1.7, 4])
        return W.cfg(k, dict(alpha=al), W.par(alpha=al))
    if k == "py":
        d, al = rnd.choice([(.3, 1), (.5, -.2), (.1, 2.5), (0, .8), (.75, .3)])
        return W.cfg(k, dict(pyd=d, alpha=al), W.par(alpha=al, d=d))
    if k == "geo":
        a, b = rnd.choice([(1, 1), (2, 3.5), (.5, .7), (4, 1)])
        return W.cfg(k, dict(a=a, b=b), W.par(a=a, b=b))
    return W.cfg(k, dict(n=rnd.randint(1, 5)), W.par(n=4))


def soft(r, k, n, style):
    if n == 0:
        return np.zeros((k, 0))
    vd = r.dirichlet(np.full(k, r.choice([.2, 1., 5.])), size=n).T
    if style == "hard":
        vd = (vd == vd.max(0)).astype(float)
    elif style == "zerorow" and k > 1:
        vd[r.integers(k)] = 0
        s = vd.sum(0)
        vd[:, s == 0] = 1 / k
        vd = vd / vd.sum(0)
    elif style == "uniform":
        vd = np.full((k, n), 1 / k)
    return vd


def scenario(seed, sid):
    rnd = random.Random(seed)
    r = np.random.default_rng(seed)
    c = configs(rnd)
    evs = []
    m = getattr(wm, W.CLS[c["kind"]])(rng=int(seed), **c["kw"])
    fixed = len(c["kw"]["alpha"]) if c["kind"] == "dir" else None
    if rnd.random() < .5:
        errs = []
        for q in QUERIES:
            errs.append(call(lambda: getattr(m, "variational_" + q)(0))[1])
        for q in SCALARS:
            errs.append(call(lambda: getattr(m, "variational_" + q)())[1])
        evs.append(dict(op="unfitted", errs=errs, err=""))
    if rnd.random() < .3 and c["kind"] not in ("eq", "fr"):
        call(lambda: (m.random(2), m.fit(np.array([0, 0])), m.random(2)))
    for _ in range(rnd.randint(1, 3)):
        k = fixed or rnd.randint(1, 5)
        n = rnd.choice([0, 1, 2, 3, 6, 12])
        vd = soft(r, k, n, rnd.choice(["soft", "hard", "zerorow", "soft", "uniform"]))
        vd2 = soft(r, k, rnd.choice([1, 4]), "soft")
        if c["kind"] == "fr" and n:
            # expected log weight of an empty group is -inf: nothing to score there
            vd2[vd.sum(1) == 0] = 0
            vd2 /= vd2.sum(0)
        _, err = call(lambda: m.fit_variational(vd))
        evs.append(dict(op="fitvar", vd=mat(vd) if n else [[] for _ in range(k)], err=err))
        if err:
            break
        for _ in range(rnd.randint(1, 2)):
            e = dict(op="q", vd2=mat(vd2))

            def go():
                order = list(range(k + 2))
                rnd.shuffle(order)
                mean, mlog, mode = {}, {}, {}
                for j in order:
                    mean[j] = fnum(m.variational_mean_w_j(j))
                    mlog[j] = fnum(m.variational_mean_log_w_j(j))
                    try:
                        mode[j] = fnum(m.variational_mode_w_j(j))
                    except ValueError:
                        mode[j] = "error"
                J = range(k + 2)
                e["mean"], e["mlog"], e["mode"] = [mean[j] for j in J], [mlog[j] for j in J], [mode[j] for j in J]
                e["lpd2"] = fnum(m.variational_mean_log_p_d__w(vd2))
                e["lpd"] = fnum(m.variational_mean_log_p_d__w())
                e["lpw"] = fnum(m.variational_mean_log_p_w())
                e["lqw"] = fnum(m.variational_mean_log_q_w())
                p = getattr(m, "variational_params", None)
                e["params"] = mat(p) if p is not None else []
            _, err = call(go)
            e["err"] = err
            e["dig"] = digest([e.get(x) for x in ("mean", "mlog", "mode", "lpd", "lpd2", "lpw", "lqw", "params")])
            evs.append(e)
            if err:
                break
        if err:
            break
    return dict(id=sid, kind=c["kind"], par=c["par"], seed=seed,
                kw={a: repr(b) for a, b in c["kw"].items()}, evs=evs)
