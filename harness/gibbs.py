"""Drives the Gibbs samplers and records chains, fits and queries."""
import json
import random

from common import CREATED, np, fnum, vec, mat, ints, call, spying, REC, digest, tlc
import pandas as pd
from pyrichlet import mixture_models as mm
import weights as W

MIX = dict(dir="DirichletDistributionMixture", dp="DirichletProcessMixture", py="PitmanYorMixture",
           geo="GeometricProcessMixture", bib="BetaInBetaMixture", bid="BetaInDirichletMixture",
           bb="BetaBernoulliMixture", bn="BetaBinomialMixture", eq="EqualWeightedMixture",
           fr="FrequencyWeightedMixture")
VARKINDS = ("dir", "dp", "py", "geo", "eq", "fr")


def configs():
    P = W.par
    c = W.cfg
    return [
        c("dp", dict(alpha=1), P(alpha=1)), c("dp", dict(alpha=2.5), P(alpha=2.5)),
        c("py", dict(pyd=.3, alpha=.8), P(alpha=.8, d=.3)), c("py", dict(pyd=.15, alpha=0), P(alpha=0, d=.15)),
        c("dir", dict(n=3, alpha=1), P(dalpha=[1] * 3, n=3)),
        c("dir", dict(n=4, alpha=[.5, 2, 1, .8]), P(dalpha=[.5, 2, 1, .8], n=4)),
        c("geo", dict(a=1, b=1), P(a=1, b=1)), c("geo", dict(a=2, b=1.5), P(a=2, b=1.5)),
        c("eq", dict(n=3), P(n=3)), c("eq", dict(n=5), P(n=5)), c("fr", dict(n=3), P(n=3)),
        c("bib", dict(x=.5, alpha=1, a=1, b=1), P(x=.5, alpha=1, a=1, b=1)),
        c("bib", dict(x=0, alpha=1.5), P(x=0, alpha=1.5)), c("bib", dict(x=1, a=2, b=2), P(x=1, a=2, b=2)),
        c("bid", dict(a=.7, alpha=1.2), P(a=.7, alpha=1.2)), c("bb", dict(p=.5, alpha=1), P(p=.5, alpha=1)),
        c("bn", dict(n=4, alpha=1), P(n=4, alpha=1)),
        c("bib", dict(x=.6, alpha=1, a=2, b=1, p_method="static"), P(x=.6, alpha=1, a=2, b=1)),
        c("bib", dict(x=.3, alpha=2, a=1, b=3, p_method="independent"), P(x=.3, alpha=2, a=1, b=3)),
        c("bib", dict(x=.7, alpha=1, a=2, b=2, p_method="max-likelihood"), P(x=.7, alpha=1, a=2, b=2)),
    ]


def dataset(r, n, D, style):
    if style == "clusters":
        c = r.normal(0, 4, (3, D))
        y = c[r.integers(0, 3, n)] + r.normal(0, .7, (n, D))
    elif style == "overlap":
        y = r.normal(0, 1, (n, D)) + 1.2 * r.integers(0, 2, (n, 1))
    elif style == "scaled":
        y = r.normal(0, 1, (n, D)) * (10. ** r.integers(*r.choice([(-2, 3), (-3, 4)]), D)) + \
            50 * r.normal(0, 1, D)
    elif style == "outlier":
        y = r.normal(0, 1, (n, D))
        y[0] = 30
    else:                                     # ties: repeated rows
        y = np.round(r.normal(0, 1.5, (n, D)))
    return y + (r.normal(0, .3) if D else 0)


def prior(r, y, style):
    """Keyword arguments and their description for the specification."""
    n, D = y.shape
    kw, pr = {}, dict(mu=[], lam="1.0", psi=[], nu="")
    if style == "default":
        return kw, pr
    sd = np.where(y.std(0) > 1e-9 * (1 + np.abs(y).max(0)), 1.1 * y.std(0), .1)
    if style in ("full", "vague"):
        kw["mu_prior"] = np.round(y.mean(0) + r.normal(0, 1, D) * sd, 3)
        pr["mu"] = vec(kw["mu_prior"])
    if style == "vague":
        kw["mu_prior"] = list(map(float, kw["mu_prior"]))
    if style in ("full", "scale", "vague"):
        A = r.normal(0, 1, (D, D + 2))
        kw["psi_prior"] = (A @ A.T / (D + 2) + .2 * np.eye(D)) * np.outer(sd, sd)
        kw["psi_prior"] = (kw["psi_prior"] + kw["psi_prior"].T) / 2
        pr["psi"] = mat(kw["psi_prior"])
    kw["lambda_prior"] = float(r.choice([.05, .4, 1, 3]))
    pr["lam"] = fnum(kw["lambda_prior"])
    if style in ("full", "nu"):
        kw["nu_prior"] = float(D + r.choice([0, 1.5, 3, 6]))
        pr["nu"] = fnum(kw["nu_prior"])
    return kw, pr


def state(p):
    th = p["theta"]
    K = max([int(j) for j in th] + [-1]) + 1
    out = [[] for _ in range(K)]
    for j in th:
        if th[j] is not None:
            out[int(j)] = [vec(th[j][0]), mat(th[j][1])]
    return dict(w=vec(p["w"]), u=vec(p["u"]), d=ints(p["d"]), th=out)


def sdig(p):
    s = state(p)
    return digest(json.dumps(s))


def brief(p):
    return dict(dig=sdig(p), d=ints(p["d"]), nth=len(p["theta"]))


class Setup:
    """A random problem: model, data, prior, initialization."""
    def __init__(self, seed, c=None, nmax=14, nmin=1, D=None, pstyle=None, dmax=6):
        self.seed = seed
        rnd = random.Random(seed)
        r = np.random.default_rng(seed)
        self.rnd, self.r = rnd, r
        self.c = c or rnd.choice(configs())
        self.D = D or rnd.choice([1, 1, 2, 2, 3])
        styles = ["default", "scale", "full", "vague", "nu", "full"]
        ps = pstyle or rnd.choice(styles)
        ns = [x for x in (1, 2, 3, 5, 8, 11, 14, 20) if nmin <= x <= nmax]
        n = rnd.choice(ns)
        wide = random.Random(seed * 7 + 3)
        if nmax > 3 and wide.random() < .06:          # more data, or more variables, than most
            n = wide.choice([30, 45, 70])
        if nmax > 3 and D is None and wide.random() < .06:
            self.D = min(dmax, wide.choice([4, 5, 6]))
        if ps in ("default", "nu"):
            n = max(n, self.D + 3)
        st = rnd.choice(["clusters", "overlap", "overlap", "scaled", "outlier", "ties"])
        if st == "ties" and ps in ("default", "nu"):
            st = "overlap"
        self.y = dataset(r, n, self.D, st)
        self.pkw, self.pr = prior(r, self.y, ps)
        self.fitkw = {}
        ms = ["kmeans", "kmeans", "random"] + (["variational"] if self.c["kind"] in VARKINDS else [])
        self.fitkw["init_method"] = rnd.choice(ms)
        if self.fitkw["init_method"] != "variational":
            self.fitkw["init_groups"] = rnd.choice([None, None, 1, 2, 3, 5])
        elif ps in ("default", "nu") or True:
            pass
        self.rngseed = int(seed % 100003)

    def make(self, T=1, B=0, s=1, **kw):
        return getattr(mm, MIX[self.c["kind"]])(rng=self.rngseed, total_iter=T, burn_in=B, subsample_steps=s,
                                                **self.c["kw"], **{k: (v.copy() if hasattr(v, "copy") else v)
                                                                   for k, v in self.pkw.items()}, **kw)

    def scenario(self, sid, evs):
        for e in evs:
            e.setdefault("err", "")
        return dict(id=sid, kind=self.c["kind"], par=self.c["par"], pr=self.pr, Y=mat(self.y), seed=self.seed,
                    pm=W.pm(self.c), kw={k: repr(v) for k, v in self.c["kw"].items()},
                    fit={k: repr(v) for k, v in self.fitkw.items()}, evs=evs)


class Ref:
    """A sampler run one sweep at a time."""
    def __init__(self, su):
        self.su = su
        self.born()

    def born(self):
        del CREATED[:]
        with spying():
            self.m = self.su.make()
        self.gens = list(CREATED)

    def cold(self):
        old = self.gens                    # a new object, with generators where they were
        self.born()
        for a, b in zip(self.gens, old):
            a.bit_generator.state = b.bit_generator.state
        m = self.m
        m.total_iter, m.burn_in = 0, 0
        with spying():
            m.fit_gibbs(self.su.y.copy(), **self.su.fitkw)
        m.total_iter = 1
        return dict(m.map_sim_params)

    def sweep(self):
        with spying():
            self.m.fit_gibbs(self.su.y.copy(), warm_start=True)
        return self.m.get_sim_params()[-1]


def sweep_event(m, p):
    e = dict(op="sweep", st=state(p), dig=sdig(p))
    e["beta"] = [[fnum(a), fnum(b), fnum(x)] for a, b, x in REC.beta[:300]]
    e["dir"] = [[vec(a), vec(x)] for a, x in REC.dir[:20]]
    e["niws"] = [[fnum(a), mat(b), mat(x)] for a, b, x in REC.niw_s]
    e["niwm"] = [[vec(a), mat(b), vec(x)] for a, b, x in REC.niw_m]
    e["p"] = common_p(m)
    return e


def common_p(m):
    q = getattr(m.weight_model, "p", None)
    return fnum(q) if isinstance(q, (int, float, np.number)) else "nan"


def chain(seed, sid, c, T, focus, nmax=14):
    """A chain, sweep by sweep (G02, G03)."""
    su = Setup(seed, c, nmax=nmax)
    ref = Ref(su)
    evs, size = [], 0
    p, err = call(ref.cold, 60)
    evs.append(dict(op="init", err=err, st=state(p) if p else {}, dig=sdig(p) if p else "",
                    p=common_p(ref.m)))
    for _ in range(T if not err else 0):
        REC.clear()
        p, err = call(ref.sweep, 30)
        if err:
            evs.append(dict(op="sweep", err=err))
            break
        e = sweep_event(ref.m, p)
        if focus not in ("G03", "G09"):
            e["niws"] = e["niwm"] = []
        if focus not in ("G02", "G09"):
            e["beta"] = e["dir"] = []
        size += len(json.dumps(e))
        if size > 4000000:              # a structure with thousands of components
            break
        evs.append(e)
    evs.append(dict(op="end"))
    return su.scenario(sid, evs)


def plans(big):
    text = ("SPECIFICATION Spec\nCONSTANTS MaxT = %d MaxB = 3 MaxS = 3 MaxFits = 3 Merits = {0} Prn = TRUE\n"
            "INVARIANTS Counts Positions InOrder Complete BestOK Emit\nPROPERTIES Appends\n"
            "CHECK_DEADLOCK FALSE\n") % (8 if big else 6)
    r = tlc("MCGibbs", text, workers=8)
    if r["rc"]:
        raise RuntimeError(r["error"])
    hs = [json.loads(json.loads(x)[5:]) for x in r["out"].splitlines() if x.startswith('"HIST ')]
    text = ("SPECIFICATION Spec\nCONSTANTS MaxT = %d MaxB = 2 MaxS = 2 MaxFits = 2 Merits = {0, 1%s} Prn = FALSE\n"
            "INVARIANTS Counts Positions InOrder Complete BestOK\nPROPERTIES Appends\n"
            "CHECK_DEADLOCK FALSE\n") % ((5, ", 2") if big else (4, ""))
    r2 = tlc("MCGibbs", text, workers=8)
    if r2["rc"]:
        raise RuntimeError(r2["error"])
    hs = [h for h in hs if len(h["h"]) == 3]
    hs.sort(key=json.dumps)
    return hs, r["generated"] + r2["generated"]


def schedule(seed, sid, c, plan, focus):
    """A history of fits against a reference chain of the same seed (G01, G04)."""
    su = Setup(seed, c, nmax=8)
    T, B, s = (plan["cfg"][k] for k in "TBs")
    # a variational initialization also runs for total_iter steps
    whole = su.fitkw["init_method"] == "variational"
    if whole and focus == "G04":
        su.fitkw["init_method"], whole = "kmeans", False
    ref = Ref(su)
    with spying():
        m = su.make(T=T, B=B, s=s)
    evs = []
    for f in plan["h"]:
        warm = f == "warm"
        e = dict(op="fit", warm=warm, T=T, B=B, s=s, saved=[], ref=[])
        sweeps = []

        def go():
            with spying():
                if warm:
                    m.fit_gibbs(su.y.copy(), warm_start=True)
                else:
                    m.fit_gibbs(su.y.copy(), **su.fitkw)

        def goref():
            if whole:
                if warm:
                    ref.m.fit_gibbs(su.y.copy(), warm_start=True)
                else:
                    ref.m.total_iter = T
                    ref.m.fit_gibbs(su.y.copy(), **su.fitkw)
                e["ref"] += [brief(p) for p in ref.m.get_sim_params()[-T:]]
                return
            if not warm:
                p0 = ref.cold()
                sweeps.append(dict(op="init", st=state(p0), dig=sdig(p0), p=common_p(ref.m)))
            for _ in range(T):
                p = ref.sweep()
                e["ref"].append(brief(p))
                sweeps.append(dict(op="sweep", st=state(p), dig=sdig(p)))

        def look():
            e["saved"] = [sdig(p) for p in m.get_sim_params()]
            e["ng"], e["na"] = ints(m.get_n_groups()), ints(m.get_n_theta())
            e["tot"] = int(m.total_saved_steps)
            e["aff"] = mat(m.gibbs_eap_affinity_matrix())
        _, err = call(go, 30)
        if not err:
            _, err = call(goref, 60)
        if not err:
            _, err = call(look)
        e["err"] = err
        if focus == "G04":
            evs += sweeps
        else:
            evs.append(e)
        if err:
            evs.append(dict(op="map" if focus == "G04" else "end", err=err))
            break
        if focus == "G04":
            evs.append(dict(op="map", ll=fnum(m.map_log_likelihood), dig=sdig(m.map_sim_params)))
    return su.scenario(sid, evs)


# ------------------------------------------------------------------ queries
def points(su, k, far):
    r = su.r
    sd, c = su.y.std(0) + .1, su.y.mean(0)
    x = c + r.normal(0, 1.5, (k, su.D)) * sd
    if far == "far":
        x[0] = c + 40 * sd
        if k > 1:
            x[-1] = c - 150 * sd * r.normal(0, 1, su.D)
    if far == "extreme":
        x[0] = c + 1e6 * sd
        if k > 1:
            x[-1] = c - 1e9
    return x


def form(rnd, x):
    """The same points in some form."""
    z = rnd.randrange(8)
    if z == 0:
        return x.tolist()
    if z == 1:
        return pd.DataFrame(x, columns=["c%d" % j for j in range(x.shape[1])], index=range(7, 7 + len(x)))
    if z == 2:
        return np.asfortranarray(x)
    if z in (3, 4, 5) and x.shape[1] == 1:
        return [x[:, 0].copy(), x[:, 0].tolist(), pd.Series(x[:, 0])][z - 3]
    return x.copy()


def fitted(seed, c, nmax=10, wrap=lambda y: y, su=None):
    su = su or Setup(seed, c, nmax=nmax)
    rnd = su.rnd
    B, s = rnd.choice([0, 0, 2, 5]), rnd.choice([1, 1, 2, 3])
    T = B + s * rnd.randint(1, 5)
    with spying():
        m = su.make(T=T, B=B, s=s)

    def go():
        with spying():
            m.fit_gibbs(wrap(su.y.copy()), **su.fitkw)
            if rnd.random() < .4:
                m.fit_gibbs(wrap(su.y.copy()), warm_start=True)
        return dict(op="saved", sts=[state(p) for p in m.get_sim_params()], map=state(m.map_sim_params))
    e, err = call(go, 60)
    if err:
        e = dict(op="saved", err=err)
    return su, m, e


def vecs(r):
    a = np.asarray(r, dtype=float)
    if a.ndim != 1:
        raise ValueError("shape")
    return vec(a)


def queries(seed, sid, c, focus):
    su, m, e = fitted(seed, c, nmax=10 if focus != "G06" else 8)
    evs = [e]
    if e.get("err"):
        return su.scenario(sid, evs)
    rnd = su.rnd
    for _ in range(4 if focus == "G05" else 3):
        if focus == "G05":
            which = rnd.choice(["eap", "map"])
            dim = rnd.choice([None, None, "one", "list"])
            dims = ([] if dim is None else [rnd.randrange(su.D)] if dim == "one" else
                    rnd.sample(range(su.D), rnd.randint(1, su.D)))
            arg = {None: None}.get(dim, dims)
            if dim == "one":
                arg = rnd.choice([dims[0], np.int64(dims[0])])
            elif dim == "list":
                arg = rnd.choice([list(dims), tuple(dims), np.array(dims)])
            K = max(len(s["w"]) for s in e["sts"])
            comp = rnd.choice([-1, -1, rnd.randrange(K), rnd.randrange(K + 2)])
            per = -1 if which == "map" else rnd.choice([-1, -1, 1, 2, 50])
            x = points(su, rnd.randint(1, 4), rnd.choice(["", "", "far"]))
            if dims:
                x = x[:, dims]
            fit = rnd.random() < .25
            q = dict(op="dens", which=which, pts=[] if fit else mat(x), dim=dims, comp=comp, periods=per, one=[])
            f = m.gibbs_eap_density if which == "eap" else m.gibbs_map_density
            kw = dict(dim=arg, component=None if comp < 0 else comp)
            if which == "eap":
                kw["periods"] = None if per < 0 else per

            def go():
                q["out"] = vecs(f(**kw) if fit else f(form(rnd, x), **kw))
                if not fit:
                    q["one"] = [vecs(f(x[[i]], **kw))[0] for i in range(len(x))]
            _, err = call(go)
            q["err"] = err
            evs.append(q)
        elif focus == "G06":
            fit = rnd.random() < .35
            x = points(su, rnd.randint(1, 4), rnd.choice(["", "", "far"]))
            q = dict(op="aff", pts=[] if fit else mat(x))

            def go():
                q["mat"] = mat(m.gibbs_eap_affinity_matrix() if fit else m.gibbs_eap_affinity_matrix(form(rnd, x)))
            _, err = call(go)
            q["err"] = err
            evs.append(q)
            n = len(su.y) if fit else len(x)
            if n >= 3 and rnd.random() < .6:
                k = rnd.randint(1, n - 1)
                q2 = dict(op="cons", pts=q["pts"], n=k)

                def go2():
                    f = m.gibbs_eap_spectral_consensus_cluster
                    q2["lab"] = ints(f(n_clusters=k) if fit else f(form(rnd, x), n_clusters=k))
                _, err = call(go2)
                q2["err"] = err
                evs.append(q2)
        else:
            fit = rnd.random() < .25
            far = rnd.choice(["", "", "far", "extreme"])
            x = su.y if fit else points(su, rnd.randint(1, 6), far)
            q = dict(op="clus", pts=[] if fit else mat(x), extreme=far == "extreme")

            def go():
                r = m.gibbs_map_cluster(full=True) if fit else m.gibbs_map_cluster(form(rnd, x), full=True)
                q["lab"], q["unc"] = ints(r[0]), vecs(r[1])
                q["plain"] = ints(m.gibbs_map_cluster() if fit else m.gibbs_map_cluster(form(rnd, x)))
                q["one"] = []
                for i in range(len(x)):
                    a, b = m.gibbs_map_cluster(x[[i]], full=True)
                    q["one"].append([str(int(a[0])), fnum(b[0])])
                q["sub"] = sorted(rnd.sample(range(len(x)), rnd.randint(1, len(x))))
                q["sublab"] = ints(m.gibbs_map_cluster(x[q["sub"]]))
            _, err = call(go)
            q["err"] = err
            evs.append(q)
        if evs[-1]["err"]:
            break
    return su.scenario(sid, evs)


# --------------------------------------------------------------- the pair plot
def many_clusters(su):
    """Ten to thirteen far groups of two observations."""
    r = su.r
    K = su.rnd.choice([10, 11, 11, 12, 13])
    k = np.repeat(np.arange(K), 2)
    su.y = np.stack([20. * (k if j % 2 == 0 else (k * 7) % K) for j in range(su.D)], axis=1)
    su.y = su.y + r.normal(0, .3, su.y.shape)
    su.pkw = dict(psi_prior=.1 * np.eye(su.D), lambda_prior=.05, nu_prior=float(su.D + 3))
    su.pr = dict(mu=[], lam="0.05", psi=mat(su.pkw["psi_prior"]), nu=fnum(su.D + 3))
    su.fitkw = dict(init_groups=K, init_method="kmeans")


def rgb(c):
    from matplotlib.colors import to_rgb
    return ",".join("%.4f" % v for v in to_rgb(np.ravel(c)[:3] if not isinstance(c, str) else c))


def curve(path):
    """The upper border of a filled area."""
    top = {}
    for x, y in path.vertices:
        top[x] = max(top.get(x, -np.inf), y)
    return np.array(sorted(top.items()))


def some(xy, k):
    xy = np.asarray(xy, float)
    xy = xy[np.unique(np.linspace(0, len(xy) - 1, k).astype(int))]
    return [vec(xy[:, 0]), vec(xy[:, 1])]


def figure(fig):
    from matplotlib.collections import PathCollection
    panels = []
    for ax in fig.axes:
        g = ax.get_subplotspec()
        q = dict(r=int(g.rowspan.start), c=int(g.colspan.start), xl=str(ax.get_xlabel()), yl=str(ax.get_ylabel()),
                 total=[], fills=[], sc=[], ell=[], ends=[])
        for h in ax.collections:
            if isinstance(h, PathCollection):
                o, f = np.asarray(h.get_offsets(), float), h.get_facecolor()
                q["sc"].append([vec(o[:, 0]), vec(o[:, 1]), [rgb(f[i % len(f)]) for i in range(len(o))]])
            else:
                for i, p in enumerate(h.get_paths()):
                    f = h.get_facecolor()
                    q["fills"].append([rgb(f[i % len(f)])] + some(curve(p), 9))
        for p in ax.patches:
            q["fills"].append([rgb(p.get_facecolor())] + some(curve(p.get_path()), 9))
        for ln in ax.lines:
            xy = np.asarray(ln.get_xydata(), float)
            if q["r"] == q["c"]:
                q["total"].append(some(xy, 9))
                q["ends"] = [fnum(xy[:, 0].min()), fnum(xy[:, 0].max())]
            else:
                q["ell"].append([rgb(ln.get_color())] + some(xy, 25))
        panels.append(q)
    return panels


def plots(seed, sid, c, many=False):
    """The pair plot of a fitted chain."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    su = Setup(seed, c, nmin=3, nmax=14, dmax=4)
    if many:
        many_clusters(su)
    rnd = su.rnd
    D = su.D
    names = rnd.choice([None, ["v%d" % j for j in range(D)], list("bacfed"[:D])])
    if names and D == 1 and rnd.random() < .5:
        wrap = lambda y: pd.Series(y[:, 0], name=names[0])
    elif names:
        wrap = lambda y: pd.DataFrame(y, columns=names)
    else:
        wrap = rnd.choice([lambda y: y, lambda y: y.tolist()])
    with spying():
        new = su.make()
    _, before = call(new.gibbs_map_pairplot)
    plt.close("all")
    su, m, e = fitted(seed, c, wrap=wrap, su=su)
    evs = [e]
    if e.get("err"):
        return su.scenario(sid, evs)
    q = dict(op="plot", before=before, names=names or [str(j) for j in range(D)], kept=[])

    def look():
        return digest([state(p) for p in m.get_sim_params()], state(m.map_sim_params), mat(m.y),
                      str(m.rng.bit_generator.state))

    def go():
        q["kept"].append(look())
        n = len(plt.get_fignums())
        m.gibbs_map_pairplot()
        q["panels"] = figure(plt.gcf())
        q["figs"] = len(plt.get_fignums()) - n
        q["kept"].append(look())
    _, q["err"] = call(go, 60)
    plt.close("all")
    evs.append(q)
    return su.scenario(sid, evs)


# ------------------------------------------------------------ the posterior
def exact_configs():
    """Models whose sweeps are exact: their chains converge to the posterior."""
    P, c = W.par, W.cfg
    out = [x for x in configs() if x["kind"] in ("dp", "py", "dir", "eq")
           or x["kind"] == "geo" and x["kw"]["a"] > 1     # else chains with 1e5 components
           or x["kind"] == "bib" and x["par"]["x"] in (fnum(0), fnum(1))]
    out.append(c("geo", dict(a=3, b=2), P(a=3, b=2)))
    out.append(c("bib", dict(x=.5, alpha=1, a=1, b=1, p_method="inverse-sampling"), P(x=.5, alpha=1, a=1, b=1)))
    return out


def sweeps_affordable(c):
    """Chains and their length."""
    if W.pm(c) == "inverse-sampling":
        return 24, 120
    return (40, 150) if c["kind"] == "py" and c["kw"]["pyd"] > .2 else (40, 300)


def posterior_model(big):
    text = ("SPECIFICATION Spec\nCONSTANTS MaxN = %d\nINVARIANTS Total Restricts Exchangeable First Restaurant\n"
            "CHECK_DEADLOCK FALSE\n") % (4 if big else 3)
    r = tlc("MCPosterior", text, workers=8)
    if r["rc"]:
        raise RuntimeError(r["error"])
    return r["generated"]


def posterior(seed, sid, c, chains, T, B=60):
    """Independent chains on three observations (G09)."""
    su = Setup(seed, c, nmax=3, nmin=3)
    r, rnd, D = su.r, su.rnd, su.D
    mu0 = np.round(r.normal(0, 2, D), 2)
    A = r.normal(0, 1, (D, D + 2))
    psi = A @ A.T + .5 * np.eye(D)
    psi = (psi + psi.T) / 2
    nu, lam = float(D + rnd.choice([5, 6.5, 9])), rnd.choice([1., 2., 4.])     # chains that mix
    cov = psi / (nu - D - 1)
    su.pkw = dict(mu_prior=mu0, psi_prior=psi, nu_prior=nu, lambda_prior=lam)
    su.pr = dict(mu=vec(mu0), lam=fnum(lam), psi=mat(psi), nu=fnum(nu))
    su.y = mu0 + r.multivariate_normal(np.zeros(D), cov * rnd.choice([.5, 1.]), size=3, method="cholesky")
    x0 = mu0 + r.normal(0, 1, D) * np.sqrt(np.diag(cov))
    su.fitkw = dict(init_method=rnd.choice(["random", "random", "kmeans"]))
    # under a "kmeans" initialization every observation may start alone
    finite = c["kind"] in ("dir", "eq")
    e = dict(op="post", x0=vec(x0), chains=[], dens=[], B=B, T=T)
    burn, thin = rnd.choice([(0, 1), (B, 1), (B, 2)])

    def one(k):
        su.rngseed = int(seed % 100003) * 1000 + k
        m = su.make(T=T, B=burn, s=thin)
        m.fit_gibbs(su.y.copy(), **su.fitkw)
        if k % 4 == 3:
            m.fit_gibbs(su.y.copy(), warm_start=True)
        sts = m.get_sim_params()
        if not burn:
            sts = sts[B:]
        F = np.zeros(10)
        for p in sts:
            d = ints(p["d"])
            key = [d.index(v) for v in d]
            j = [[0, 0, 0], [0, 0, 2], [0, 1, 0], [0, 1, 1], [0, 1, 2]].index(key)
            F[j] += 1
            w, (mu, sg) = float(p["w"][d[0]]), p["theta"][d[0]]
            mu, sg = np.atleast_1d(mu), np.atleast_2d(sg)
            z = x0 - mu
            dn = np.exp(-.5 * z @ np.linalg.solve(sg, z)) / np.sqrt(np.linalg.det(2 * np.pi * sg))
            F[5:] += [w, d[0] == 0, mu[0], sg[0, 0], w * dn]
        e["chains"].append(vec(F / len(sts)))
        if finite and not burn:
            e["dens"].append(fnum(m.gibbs_eap_density(x0[None, :])[0]))
    for k in range(chains):
        _, err = call(lambda: one(k), 90)
        if err == "Timeout":            # thousands of components; hanging is judged by chain
            e = dict(op="heavy")
            break
        if err:
            e["err"] = err
            break
    return su.scenario(sid, [e])
