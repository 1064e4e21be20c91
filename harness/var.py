"""Drives variational fits of the mixtures and records them."""
import json
import random

from common import np, fnum, vec, mat, ints, call, digest, tlc
import gibbs
from gibbs import Setup, form, points, vecs
import weights as W


def configs():
    P, c = W.par, W.cfg
    return [
        c("dp", dict(alpha=1), P(alpha=1)), c("dp", dict(alpha=.4), P(alpha=.4)),
        c("py", dict(pyd=.3, alpha=.8), P(alpha=.8, d=.3)), c("py", dict(pyd=.5, alpha=-.2), P(alpha=-.2, d=.5)),
        c("dir", dict(n=3, alpha=1), P(dalpha=[1] * 3, n=3)), c("dir", dict(n=1, alpha=2), P(dalpha=[2], n=1)),
        c("dir", dict(n=4, alpha=[.5, 2, 1, .8]), P(dalpha=[.5, 2, 1, .8], n=4)),
        c("geo", dict(a=1, b=1), P(a=1, b=1)), c("geo", dict(a=2, b=1.5), P(a=2, b=1.5)),
        c("eq", dict(n=3), P(n=3)), c("fr", dict(n=3), P(n=3)), c("fr", dict(n=4), P(n=4)),
    ]


def vstate(m):
    k = len(m.var_theta)
    wm = m.weight_model
    s = dict(r=[vec(x) for x in m.var_d], th=[[vec(a), fnum(b), mat(c), fnum(d)] for a, b, c, d in m.var_theta],
             wm=[fnum(wm.variational_mean_w_j(j)) for j in range(k)],
             wl=[fnum(wm.variational_mean_log_w_j(j)) for j in range(k)])
    return s


def vdig(m):
    return digest(json.dumps(vstate(m)))


def problem(seed, c, nmax=14, nmin=1):
    su = Setup(seed, c, nmax=nmax, nmin=nmin)
    rnd = su.rnd
    ms = "random" if rnd.random() < .35 else "kmeans"
    kk = len(c["par"]["dalpha"]) if c["kind"] == "dir" else c["kw"].get("n")
    if c["kind"] in ("eq", "fr") and rnd.random() < .5 or kk is None:
        k = rnd.choice([1, 2, 3, 3, 4, 6])
    else:
        k = None
    su.fitkw = dict(n_groups=k, init_method=ms)
    su.k = k or kk
    return su


def scenario(su, sid, evs):
    s = su.scenario(sid, evs)
    s["k"], s["init"] = int(su.k), su.fitkw["init_method"]
    return s


def sequence(seed, sid, c, L, plan, tols):
    """A reference sequence of L iterations and the fits of plan against it."""
    su = problem(seed, c)
    ref = su.make()
    evs = []

    def cold():
        ref.total_iter = 0
        ref.fit_variational(su.y.copy(), **su.fitkw)
        ref.total_iter = 1
        return vstate(ref)

    def iterate():
        ref.fit_variational(su.y.copy(), warm_start=True, tol=-1)
        return vstate(ref)
    s, err = call(cold)
    evs.append(dict(op="init", err=err, st=s, dig=vdig(ref) if not err else ""))
    for _ in range(L if not err else 0):
        s, err = call(iterate)
        evs.append(dict(op="iter", err=err, st=s, dig=vdig(ref) if not err else ""))
        if err:
            break
    m = None
    for f in plan if not err else []:
        tol = tols[f["tol"]]
        e = dict(op="vfit", warm=f["warm"], T=f["T"], tol=fnum(tol))

        def go():
            m.total_iter = f["T"]
            if f["warm"]:
                m.fit_variational(su.y.copy(), warm_start=True, tol=tol)
            else:
                m.fit_variational(su.y.copy(), tol=tol, **su.fitkw)
            e["dig"], e["conv"] = vdig(m), bool(m.var_converged)
        if not f["warm"]:
            m = su.make()
        _, err = call(go)
        e["err"] = err
        evs.append(e)
        if err:
            break
    return scenario(su, sid, evs)


def plans(big):
    text = ("SPECIFICATION Spec\nCONSTANTS N = %d Top = 3 MaxT = 3 Tols = {0, 1} MaxFits = 2 Prn = FALSE\n"
            "INVARIANTS Agrees Truthful\nPROPERTIES Forward\nCHECK_DEADLOCK FALSE\n") % (6 if big else 5)
    r = tlc("MCVar", text, workers=8)
    if r["rc"]:
        raise RuntimeError(r["error"])
    text = ("SPECIFICATION Spec\nCONSTANTS N = 1 Top = 0 MaxT = %d Tols = {0, 1, 2} MaxFits = 2 Prn = TRUE\n"
            "INVARIANTS Agrees Truthful Emit\nPROPERTIES Forward\nCHECK_DEADLOCK FALSE\n") % (6 if big else 5)
    r2 = tlc("MCVar", text, workers=8)
    if r2["rc"]:
        raise RuntimeError(r2["error"])
    hs = [json.loads(json.loads(x)[5:]) for x in r2["out"].splitlines() if x.startswith('"HIST ')]
    hs.sort(key=json.dumps)
    return hs, r["distinct"] + r2["distinct"]


def bound(big):
    """The objective is a lower bound of the exact log evidence (MCBound); states explored."""
    text = ("SPECIFICATION Spec\nCONSTANTS Steps = %d Big = %s\nINVARIANTS LowerBound Exact NoLoss Columns\n"
            "CHECK_DEADLOCK FALSE\n") % ((4, "TRUE") if big else (2, "FALSE"))
    r = tlc("MCBound", text, workers=8)
    if r["rc"]:
        raise RuntimeError(r["error"])
    return r["generated"]


def fitted(seed, c):
    su = problem(seed, c, nmax=10)
    m = su.make()
    m.total_iter = su.rnd.choice([0, 1, 1, 2, 5, 30])

    def go():
        m.fit_variational(su.y.copy(), **su.fitkw)
        if su.rnd.random() < .3:
            m.total_iter = 1
            m.fit_variational(su.y.copy(), warm_start=True)
        return dict(op="saved", st=vstate(m))
    e, err = call(go)
    return su, m, (e if not err else dict(op="saved", err=err))


def queries(seed, sid, c, focus):
    su, m, e = fitted(seed, c)
    evs = [e]
    if e.get("err"):
        return scenario(su, sid, evs)
    rnd = su.rnd
    for _ in range(4):
        if focus == "V04":
            which = rnd.choice(["eap", "map"])
            f = m.var_eap_density if which == "eap" else m.var_map_density
            dim = rnd.choice([None, None, "one", "list"])
            dims = ([] if dim is None else [rnd.randrange(su.D)] if dim == "one" else
                    rnd.sample(range(su.D), rnd.randint(1, su.D)))
            comp = rnd.choice([-1, -1, rnd.randrange(su.k)])
            kw = {}
            if dims:
                kw["dim"] = dims[0] if dim == "one" else (list(dims) if rnd.random() < .5 else np.array(dims))
            if comp >= 0:
                kw["component"] = comp
            fit = rnd.random() < .25
            x = points(su, rnd.randint(1, 5), rnd.choice(["", "", "far"]))
            if dims:
                x = x[:, dims]
            q = dict(op="dens", which=which, dim=dims, comp=comp, pts=[] if fit else mat(x), one=[], out=[], terms=[])

            def go():
                q["out"] = vecs(f(**kw) if fit else f(form(rnd, x), **kw))
                if not fit:
                    q["one"] = [vecs(f(x[[i]], **kw))[0] for i in range(len(x))]
                if comp < 0:
                    q["terms"] = [vecs(f(component=j, **kw) if fit else f(x, component=j, **kw))
                                  for j in range(su.k)]
            _, q["err"] = call(go)
            evs.append(q)
        else:
            fit = rnd.random() < .3
            far = rnd.choice(["", "", "far", "extreme"])
            x = points(su, rnd.randint(1, 5), far)
            n = len(su.y) if fit else len(x)
            pts = [] if fit else mat(x)
            which = rnd.choice(["clus", "aff", "cons"])
            q = dict(op=which, pts=pts, extreme=far == "extreme")

            def go():
                if which == "aff":
                    q["mat"] = mat(m.var_eap_affinity_matrix() if fit else m.var_eap_affinity_matrix(form(rnd, x)))
                elif which == "cons":
                    q["n"] = rnd.randint(1, n - 1)
                    g = m.var_eap_spectral_consensus_cluster
                    q["lab"] = ints(g(n_clusters=q["n"]) if fit else g(form(rnd, x), n_clusters=q["n"]))
                else:
                    a, b = m.var_map_cluster(full=True) if fit else m.var_map_cluster(form(rnd, x), full=True)
                    q["lab"], q["unc"] = ints(a), vecs(b)
                    q["plain"] = ints(m.var_map_cluster() if fit else m.var_map_cluster(form(rnd, x)))
                    q["one"] = []
                    for i in range(n if not fit else 0):
                        a, b = m.var_map_cluster(x[[i]], full=True)
                        q["one"].append([str(int(a[0])), fnum(b[0])])
            if which == "cons" and n < 3:
                continue
            _, q["err"] = call(go)
            evs.append(q)
    return scenario(su, sid, evs)
