"""Drives pairs of objects, the second one in other units (L05)."""
import copy
import random

from common import np, fnum, vec, mat, ints, call, tlc
from sklearn.cluster import KMeans
from pyrichlet import mixture_models as mm
import gibbs
import var


class Change:
    """y -> c (signs * y[perm]) + s"""
    def __init__(self, rnd, D, isometry, sd):
        self.c = rnd.choice([1., 2. ** rnd.choice([-100, -40, -20, -7, -3, 3, 7, 20, 40, 100]), 10. ** rnd.randint(-6, 6)])
        self.p, self.g = list(range(D)), [1.] * D
        if isometry:
            rnd.shuffle(self.p)
            self.g = [rnd.choice([1., 1., -1.]) for _ in range(D)]
        self.s = [0.] * D
        if rnd.random() < .6:
            self.s = [rnd.choice([0., 1., -30.]) * self.c * float(sd[k]) * rnd.random() for k in self.p]
        self.D = D
        # nothing is rounded
        self.exact = np.log2(self.c) % 1 == 0 and not any(self.s) and self.p == list(range(D)) and min(self.g) > 0

    def data(self, y):
        return self.c * np.array(self.g) * np.asarray(y)[:, self.p] + self.s

    def prior(self, kw):
        kw = copy.deepcopy(kw)
        if "mu_prior" in kw:
            kw["mu_prior"] = self.data(np.array([kw["mu_prior"]], dtype=float))[0]
        if "psi_prior" in kw:
            g = np.array(self.g)
            kw["psi_prior"] = self.c ** 2 * np.outer(g, g) * np.asarray(kw["psi_prior"])[np.ix_(self.p, self.p)]
        return kw

    def dims(self, b):
        """Where the variables b are now."""
        return [self.p.index(x) for x in b]

    def show(self):
        return dict(c=fnum(self.c), p=[i + 1 for i in self.p], g=vec(self.g), s=vec(self.s))


def stable(y, k):
    """Is there a single best k-means clustering of y, with groups of different sizes?"""
    k = min(k, len(y))
    parts = set()
    for i in range(3):
        d = KMeans(n_clusters=k, n_init=10, random_state=i).fit_predict(y)
        n = np.bincount(d, minlength=k)
        if len(set(n)) < k:
            return False
        parts.add(tuple(np.argsort(np.argsort(-n))[d]))
    return len(parts) == 1


def pri(m):
    D = m.y.shape[1]
    return dict(m=vec(np.reshape(m.mu_prior, D)), psi=mat(np.reshape(m.psi_prior, (D, D))), l=fnum(m.lambda_prior),
                nu=fnum(m.nu_prior))


def flat(x):
    return vec(np.ravel(np.asarray(x, dtype=float)))


def scenario(seed, sid, c):
    rnd = random.Random(seed)
    hasvar = c["kind"] in gibbs.VARKINDS
    what = rnd.choice("gvb" if hasvar else "g")
    su = gibbs.Setup(seed, c, nmax=11, nmin=2)
    if hasvar and what == "v" and rnd.random() < .6:
        su = var.problem(seed, rnd.choice(var.configs()), nmax=11, nmin=2)
        c = su.c
    D, r = su.D, su.r
    y = su.y.copy()
    # ties among distances would be broken by rounding
    y = y + np.round(r.normal(0, .01, y.shape), 5) * (y.std(0) + .1)
    sd = y.std(0) + 1e-9
    u = Change(rnd, D, what == "v", sd)
    init = rnd.choice(["kmeans", "random", "variational"] if hasvar else ["kmeans", "random"])
    vinit = rnd.choice(["kmeans", "random"]) if u.p == list(range(D)) and min(u.g) > 0 else "kmeans"
    k = len(c["par"]["dalpha"]) or rnd.choice([1, 2, 3, 4])
    ig = rnd.choice([None, None, 2, 4])
    if not u.exact:                         # rounding may decide where k-means starts
        if init == "variational" or not stable(y, c["kw"].get("n") or ig or 2):
            init = "random"
        if vinit == "kmeans" and not stable(y, k):
            vinit = "random"
            u.p, u.g = list(range(D)), [1.] * D
    T = rnd.randint(2, 12)
    B, s = rnd.randint(0, T - 1), rnd.choice([1, 1, 2])
    mk = getattr(mm, gibbs.MIX[c["kind"]])
    objs = [mk(rng=su.rngseed, total_iter=T, burn_in=B, subsample_steps=s, **copy.deepcopy(c["kw"]), **kw)
            for kw in (copy.deepcopy(su.pkw), u.prior(su.pkw))]
    z = u.data(y)
    evs = []

    def pair(op, f, g, show, **kw):
        a, ea = call(f)
        b, eb = call(g)
        e = dict(op=op, erra=ea, errb=eb, **kw)
        if not ea and not eb:
            e["a"], e["b"] = show(a), show(b)
        evs.append(e)
        return ea or eb

    def both(op, f, show, **kw):
        return pair(op, lambda: f(objs[0], y), lambda: f(objs[1], z), show, **kw)

    def chain():
        ms = [x.get_sim_params() for x in objs]
        for i in sorted({0, len(ms[0]) // 2, len(ms[0]) - 1}):
            pair("state", lambda: ms[0][i], lambda: ms[1][i], gibbs.state)
        pair("state", lambda: objs[0].map_sim_params, lambda: objs[1].map_sim_params, gibbs.state)
        pair("labs", lambda: ms[0], lambda: ms[1], lambda w: [ints(p["d"]) for p in w], q="chain")
        pair("labs", lambda: objs[0], lambda: objs[1], lambda m: [ints(m.get_n_groups()), ints(m.get_n_theta())],
             q="groups")
        pair("ll", lambda: objs[0].map_log_likelihood, lambda: objs[1].map_log_likelihood, fnum)

    def queries(pre):
        x = y[rnd.sample(range(len(y)), 2)] + r.normal(0, 1, (2, D)) * sd
        if rnd.random() < .3:
            x = np.vstack([x, x[:1] + rnd.choice([5, 30]) * sd])
        xz = u.data(x)
        for q in ("eap_density", "map_density"):
            f = [getattr(o, pre + q) for o in objs]
            kw = rnd.choice([{}, {}, dict(component=0)])
            pair("dens", lambda: f[0](x, **kw), lambda: f[1](xz, **kw), flat, m=D, q=pre + q)
            b = rnd.sample(range(D), rnd.randint(1, D))
            bz = u.dims(b)
            pair("dens", lambda: f[0](x[:, b], dim=b, **kw), lambda: f[1](xz[:, bz], dim=bz, **kw), flat, m=len(b),
                 q=pre + q + " dim")
        for o in ("new", "fitted"):
            f = [getattr(a, pre + "eap_affinity_matrix") for a in objs]
            pair("same", (lambda: f[0](x)) if o == "new" else f[0], (lambda: f[1](xz)) if o == "new" else f[1], flat,
                 q="affinity")
            g = [getattr(a, pre + "map_cluster") for a in objs]
            res = []
            for h, p in zip(g, (x, xz)):
                w, err = call(lambda: h(p, full=True) if o == "new" else h(full=True))
                res.append((w, err))
            if res[0][1] or res[1][1]:
                evs.append(dict(op="same", q="cluster", erra=res[0][1], errb=res[1][1]))
                continue
            evs.append(dict(op="same", q="uncertainty", erra="", errb="", a=flat(res[0][0][1]), b=flat(res[1][0][1])))
            sure = res[0][0][1] < .499      # ties may be broken by rounding
            if sure.all():
                evs.append(dict(op="labs", q="clusters", erra="", errb="", a=ints(res[0][0][0]), b=ints(res[1][0][0])))

    if what != "v":
        for warm in [False] + [True] * (rnd.random() < .4):
            kw = dict(warm_start=True) if warm else dict(init_method=init)
            if not warm and init != "variational":
                kw["init_groups"] = ig
            if both("labs", lambda m, d: m.fit_gibbs(d.copy(), **kw), lambda _: 0, q="fit"):
                return done(sid, seed, c, u, sd, len(y), su, evs)
            chain()
        both("pri", lambda m, d: m, pri)
        queries("gibbs_")
    if what != "g":
        for m in objs:
            m.total_iter = rnd.choice([1, 3, 6]) if m is objs[0] else objs[0].total_iter
        if both("labs", lambda m, d: m.fit_variational(d.copy(), n_groups=k, tol=-1, init_method=vinit), lambda _: 0, q="fit"):
            return done(sid, seed, c, u, sd, len(y), su, evs)
        both("vstate", lambda m, d: m, var.vstate)
        both("pri", lambda m, d: m, pri)
        queries("var_")
    return done(sid, seed, c, u, sd, len(y), su, evs)


def done(sid, seed, c, u, sd, n, su, evs):
    return dict(id=sid, kind=c["kind"], kw=repr(c["kw"]), seed=seed, u=u.show(), sd=vec(sd), n=n, pkw=repr(su.pkw),
                evs=evs)


def model(big):
    text = ("SPECIFICATION Spec\nCONSTANTS MaxSteps = %d\nINVARIANTS Priors Posteriors Densities Marginals Likelihood "
            "Choices Updates Responsibilities Objective Predictive\nCHECK_DEADLOCK FALSE\n") % (6 if big else 3)
    r = tlc("MCUnits", text, workers=8)
    if r["rc"]:
        raise RuntimeError(r["error"])
    return r["generated"]
