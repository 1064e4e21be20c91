"""Drives whole histories of objects: fits, refits, queries, twins, input forms."""
import copy
import json
import os
import random
import subprocess
import sys

from common import np, fnum, vec, mat, ints, call, digest, tlc, VERIF
import pandas as pd
from pyrichlet import mixture_models as mm, weight_models as wm
import gibbs
import weights as W

GQ = ("gibbs_eap_density", "gibbs_map_density", "gibbs_eap_affinity_matrix", "gibbs_map_cluster",
      "gibbs_eap_spectral_consensus_cluster")
VQ = ("var_eap_density", "var_map_density", "var_eap_affinity_matrix", "var_map_cluster",
      "var_eap_spectral_consensus_cluster")


# ------------------------------------------------------------- what is shown
def flat(x):
    if isinstance(x, dict):
        return [z for k in sorted(x, key=str) for z in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    if x is None:
        return []
    if hasattr(x, "to_numpy"):
        x = x.to_numpy()
    if isinstance(x, str):
        return []
    return [fnum(v) for v in np.asarray(x, dtype=float).ravel()]


def show_g(m):
    if not m.gibbs_fitted:
        return None
    s = [gibbs.state(p) for p in m.get_sim_params()]
    if m.map_sim_params is None or not s:
        return ["a fit without states", len(s), m.map_sim_params is None]
    return [json.dumps(s), json.dumps(gibbs.state(m.map_sim_params)), float(m.map_log_likelihood),
            ints(m.get_n_groups()), ints(m.get_n_theta()), int(m.total_saved_steps), np.array(m.affinity_matrix)]


def num_g(m):
    if not m.gibbs_fitted:
        return []
    p = m.map_sim_params
    if p is None or not m.get_sim_params():
        return []
    return flat([p["w"], p["u"], p["d"], m.map_log_likelihood, m.get_n_groups(), m.affinity_matrix,
                 [m.get_sim_params()[-1]["w"]], [p["theta"][j] for j in sorted(p["theta"])]])[:300]


def show_v(m):
    if not m.var_fitted:
        return None
    k = len(m.var_theta)
    w = m.weight_model
    return [np.array(m.var_d), [[np.array(a), float(b), np.array(c), float(d)] for a, b, c, d in m.var_theta],
            bool(m.var_converged), [float(w.variational_mean_w_j(j)) for j in range(k)]]


def obs(name, m, what="g v pri gen", gen=None):
    out = []
    for x in what.split():
        if x == "g":
            d, n = digest(show_g(m)), num_g(m)
        elif x == "v":
            s = show_v(m)
            d, n = digest(s), flat(s)[:300]
        elif x == "pri":
            s = [None if getattr(m, a) is None else np.array(getattr(m, a), dtype=float)
                 for a in ("mu_prior", "lambda_prior", "psi_prior", "nu_prior")]
            d, n = digest(s), flat(s)
        elif x == "gen":
            if gen is None:
                continue
            d, n = digest(json.dumps(gen.bit_generator.state, default=str)), []
        elif x == "w":
            d, n = digest(np.array(m.get_weights())), flat(m.get_weights())[:200]
        out.append(dict(o=name, what=x, dig=d, num=n))
    return out


def answer(r):
    """digest and numbers of a query result"""
    return digest(r if not isinstance(r, tuple) else list(r)), flat(r)[:300]


def event(**e):
    for k, v in dict(err="", obs=[], ins=[], dig="", num=[], undef=False, warm=False, init=False, copy="").items():
        e.setdefault(k, v)
    return e


def shape(x):
    """digest of an object passed by the caller"""
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return digest(x.to_numpy().copy(), list(map(str, getattr(x, "columns", [getattr(x, "name", "")]))),
                      list(map(str, x.index)))
    return digest(x)


# ----------------------------------------------------------------- problems
class World:
    """Objects, their generators, and the events recorded so far."""
    def __init__(self, seed, c, prop, approx=False, D=(1, 2), same_dim=False, small=False):
        self.seed, self.c, self.prop = seed, c, prop
        self.rnd = random.Random(seed)
        self.r = np.random.default_rng(seed)
        rnd, r = self.rnd, self.r
        Ds = [rnd.choice(D)] * 2 if same_dim else [rnd.choice(D), rnd.choice(D)]
        self.data = {}
        for k, d in zip("AB", Ds):
            n = rnd.randint(d + 4, d + 9)
            if random.Random(seed * 7 + 3).random() < .06:
                n += 50
            y = gibbs.dataset(r, n, d, rnd.choice(["clusters", "overlap"]))
            self.data[k] = np.round(y, 4)
        self.kw = {}
        if Ds[0] == Ds[1] and rnd.random() < .5:
            self.kw, _ = gibbs.prior(r, self.data["A"], rnd.choice(["scale", "full", "vague", "nu"]))
        self.T = rnd.randint(2, 4)
        self.B = rnd.randint(0, self.T - 1)
        self.s = rnd.choice([1, 1, 2])
        self.X = {}
        self.ms, self.gens, self.evs, self.sc, self.names = {}, {}, [], approx, []
        self.on = {}           # data of the last fit of each object and method
        self.var = c["kind"] in gibbs.VARKINDS
        self.par = "%s %r" % (c["kind"], sorted(c["kw"].items()))
        self.gargs = dict(init_method=rnd.choice(["kmeans", "kmeans", "random"]))
        self.k = len(c["par"]["dalpha"]) or rnd.choice([2, 3])

    def points(self, key, d):
        if (key, d) not in self.X:
            y = self.data[[k for k in self.data if self.data[k].shape[1] == d][0]]
            self.X[key, d] = np.round(y[:3] + self.r.normal(0, 1, (3, d)), 4)
        return self.X[key, d]

    def make(self, gen):
        kw = copy.deepcopy(self.kw)
        return getattr(mm, gibbs.MIX[self.c["kind"]])(rng=gen, total_iter=self.T, burn_in=self.B,
                                                      subsample_steps=self.s, **copy.deepcopy(self.c["kw"]), **kw)

    def new(self, name, seed=None, copyof=None, how="gen", par=None):
        g = None
        if how == "gen":
            g = np.random.Generator(np.random.PCG64(seed if seed is not None else 0))
        m = self.make(g if g is not None else seed)
        if copyof:
            g.bit_generator.state = self.gens[copyof].bit_generator.state
        self.ms[name], self.gens[name] = m, g
        self.evs.append(event(op="new", o=name, par=par or self.par, gen="%s %s" % (how, seed), copy=copyof or ""))

    def look(self, name):
        return obs(name, self.ms[name], gen=self.gens[name])

    def fit(self, name, kind, data, warm, y=None, args=None, quiet=False, **kw):
        """kind g or v"""
        m = self.ms[name]
        y = np.array(self.data[data]) if y is None else y
        a = dict(self.gargs) if kind == "g" else dict(n_groups=self.k)
        a.update(args or {})
        if warm:
            a = dict(warm_start=True)
        before = shape(y)
        f = m.fit_gibbs if kind == "g" else m.fit_variational
        _, err = call(lambda: f(y, **a), 30)
        e = event(op=kind + "fit", o=name, data=data, args=repr(sorted(a.items())), warm=warm, err=err,
                  init=a.get("init_method") == "variational" and kind == "g", ins=[[before, shape(y)]])
        if not err:
            self.on[name, kind] = data
            if not warm:
                self.on[name] = data           # its priors may come from these
            if e["init"]:
                self.on[name, "v"] = data
            if not quiet:
                e["obs"] = self.look(name)
        self.evs.append(e)
        return err

    def undefined(self, m):
        try:
            for j in range(len(m.var_theta)):
                m.weight_model.variational_mode_w_j(j)
        except ValueError:
            return True
        except Exception:      # noqa: BLE001
            return False
        return False

    def query(self, name, q, pts, x=None, look=True, **kw):
        m = self.ms[name]
        f = getattr(m, q)
        spectral = "spectral" in q
        if spectral:
            kw["n_clusters"] = 2
        meth = "g" if q.startswith("gibbs") else "v"
        fitted = m.gibbs_fitted if meth == "g" else m.var_fitted
        if not pts and fitted and self.data[self.on[name]].shape[1] != self.data[self.on[name, meth]].shape[1]:
            pts = "X"            # the other method was fitted to data of another dimension
        if pts and x is None:
            d = np.asarray(m.y).shape[1] if np.asarray(m.y).ndim == 2 and np.asarray(m.y).size else 1
            mine = m.map_sim_params["theta"][0][0].shape[0] if meth == "g" and fitted else \
                (len(m.var_theta[0][0]) if fitted else d)
            x = np.array(self.points(pts, mine)) if mine in {v.shape[1] for v in self.data.values()} else \
                np.zeros((3, mine))
        before = shape(x) if pts else ""
        r, err = call((lambda: f(x, **kw)) if pts else (lambda: f(**kw)))
        e = event(op="q", o=name, m=meth, q=q + repr(sorted(kw.items())), pts=pts, err=err,
                  undef=q == "var_map_density" and fitted and self.undefined(m))
        if pts:
            e["ins"] = [[before, shape(x)]]
        if not err and not spectral:
            e["dig"], e["num"] = answer(r)
        if look:
            e["obs"] = self.look(name)
        self.evs.append(e)

    def noise(self, look=True):
        self.evs.append(event(op="noise", obs=[x for n in self.ms for x in self.look(n)] if look else []))

    def stir(self):
        """Draws and seeds of everything that is not the generator of an object."""
        rnd = self.rnd
        for _ in range(rnd.randint(1, 3)):
            z = rnd.randrange(6)
            if z == 0:
                np.random.seed(rnd.randrange(2 ** 31))
            elif z == 1:
                np.random.random(rnd.randint(1, 9))
            elif z == 2:
                random.seed(rnd.randrange(999))
            elif z == 3:
                np.random.default_rng(rnd.randrange(9)).normal(size=3)
            elif z == 4:
                wm.DirichletProcess(rng=rnd.randrange(9)).random(3)
            else:
                np.random.shuffle(list(range(5)))

    def done(self, sid):
        return dict(id=sid, kind=self.c["kind"], kw=repr(self.c["kw"]), seed=self.seed, approx=self.sc,
                    data={k: mat(v) for k, v in self.data.items()}, pkw=repr(self.kw), T=self.T, B=self.B,
                    s=self.s, evs=self.evs)


def usable(h, var):
    """Histories a model can follow (some have no variational inference)."""
    return var or not any(e["op"] == "vfit" for e in h)


# --------------------------------------------------------------------- L01
def l01(seed, sid, c, h):
    w = World(seed, c, "L01", same_dim=True)
    rnd = w.rnd
    if rnd.random() < .15:                 # more groups than observations
        w.gargs = dict(init_method="kmeans", init_groups=17)
        w.k = w.k if len(c["par"]["dalpha"]) else 17
    if not w.var:
        h = [e for e in h if e["op"] != "vfit"]
    w.new("a", seed=seed % 1000)
    w.new("b", seed=seed % 1000)           # the same without the queries
    for e in h:
        if e["op"] in ("gfit", "vfit"):
            if e["warm"] and not w.dim_ok("a", e["op"][0], e["d"]):
                continue
            if w.fit("a", e["op"][0], e["d"], e["warm"]) or w.fit("b", e["op"][0], e["d"], e["warm"]):
                break
        else:
            q = rnd.choice(GQ if e["op"] == "qg" else VQ)
            kw = {}
            if "density" in q and rnd.random() < .3:
                kw = dict(component=0)
            if "map_cluster" in q and rnd.random() < .5:
                kw = dict(full=True)
            w.query("a", q, e["d"], **kw)
            if rnd.random() < .4:
                w.query("a", rnd.choice(GQ + VQ), rnd.choice(["", "X"]))
                w.query("a", q, e["d"], **kw)
    for q in rnd.sample(GQ + VQ, 3):
        w.query("a", q, "")
        w.query("b", q, "")
    for k in "gv":
        if (w.ms["a"].gibbs_fitted if k == "g" else w.ms["a"].var_fitted):
            d = w.on["a", k]
            w.fit("a", k, d, True)
            w.fit("b", k, d, True)
    return w.done(sid)


# --------------------------------------------------------------------- L02
def l02(seed, sid, c, h):
    same = random.Random(seed).random() < .4
    w = World(seed, c, "L02", same_dim=same)
    rnd = w.rnd
    if rnd.random() < .2 and w.var:
        w.gargs = dict(init_method="variational")
    if not w.var:
        h = [dict(e, op="gfit") if e["op"] == "vfit" else e for e in h]
    w.new("a", seed=seed % 1000)
    n = 0
    for e in h:
        if e["op"] not in ("gfit", "vfit"):
            w.query("a", rnd.choice(GQ if e["op"] == "qg" else VQ), e["d"])
            continue
        k = e["op"][0]
        if e["warm"]:
            if w.dim_ok("a", k, e["d"]):
                w.fit("a", k, e["d"], True)
            continue
        args = {}
        if k == "v" and c["kind"] != "dir" and rnd.random() < .6:
            args["n_groups"] = rnd.choice([1, 2, 4, 5])
        if k == "v" and rnd.random() < .3:
            args["init_method"] = "random"
        if k == "g" and rnd.random() < .3:
            args["init_groups"] = rnd.choice([1, 2, 4])
        n += 1
        w.new("c%d" % n, seed=n, copyof="a")
        if w.fit("a", k, e["d"], False, args=args) or w.fit("c%d" % n, k, e["d"], False, args=args):
            break
        for q in rnd.sample(GQ if k == "g" else VQ, 2):
            p = rnd.choice(["", "X"])
            w.query("a", q, p, look=False)
            w.query("c%d" % n, q, p, look=False)
        if rnd.random() < .6:              # the fits go on in the same way
            w.fit("a", k, e["d"], True)
            w.fit("c%d" % n, k, e["d"], True)
    return w.done(sid)


def dim_ok(self, name, k, d):
    """May the last fit of the method go on with these data?"""
    return self.on.get((name, k)) == d and self.data[self.on[name]].shape[1] == self.data[d].shape[1]


World.dim_ok = dim_ok


# --------------------------------------------------------------------- L03
def l03(seed, sid, c, h):
    w = World(seed, c, "L03", same_dim=True)
    rnd = w.rnd
    if not w.var:
        h = [dict(e, op="gfit") if e["op"] == "vfit" else e for e in h]
    how = rnd.choice(["gen", "int"])
    s0 = seed % 1000
    w.stir()
    w.new("a", seed=s0, how=how)
    w.stir()
    w.new("b", seed=s0, how=how)
    w.new("z", seed=s0 + 1, how=how)
    for e in h:
        if e["op"] in ("gfit", "vfit"):
            k = e["op"][0]
            warm = e["warm"] and w.dim_ok("a", k, e["d"])
            args = {}
            if rnd.random() < .3:
                args["init_method"] = "random"
            elif k == "g" and w.var and rnd.random() < .3:
                args["init_method"] = "variational"
            names = ["a", "b", "z"]
            rnd.shuffle(names)
            for n in names:
                w.stir()
                if w.fit(n, k, e["d"], warm, args=args):
                    return w.done(sid)
            if k == "g":
                w.evs.append(event(op="differ", digs=[digest(show_g(w.ms["a"])), digest(show_g(w.ms["z"]))]))
        else:
            q = rnd.choice(GQ[:4] if e["op"] == "qg" else VQ[:4])
            for n in ("a", "b"):
                w.stir()
                w.query(n, q, e["d"])
    return w.done(sid)


BADRNG = [lambda: "7", lambda: 1.5, lambda: [1], lambda: object(), lambda: np.random.RandomState(1), lambda: {"a": 1},
          lambda: np.random]


def l03_bad(seed, sid, c):
    w = World(seed, c, "L03")
    for f in BADRNG:
        r = f()
        for k in (lambda: w.make(r), lambda: getattr(wm, W.CLS[c["kind"]])(rng=r, **copy.deepcopy(c["kw"]))):
            _, err = call(k)
            w.evs.append(event(op="bad", err=err, want="TypeError"))
    return w.done(sid)


def w_history(rnd, c):
    out = []
    for _ in range(rnd.randint(4, 9)):
        z = rnd.randrange(7)
        if z == 0:
            out.append(["random", rnd.randint(1, 5)])
        elif z == 1:
            out.append(["complete", rnd.randint(1, 8)])
        elif z == 2:
            out.append(["tail", rnd.choice([.3, .8, .95])])
        elif z == 3:
            out.append(["fit", [rnd.randrange(3) for _ in range(rnd.randint(1, 7))]])
        elif z == 4:
            out.append(["random_assignment", rnd.randint(1, 6)])
        elif z == 5:
            out.append(["weighting_log_likelihood"])
        else:
            out.append(["reset"])
    return [["random", 2]] + out


def w_call(m, c, op):
    k, a = op[0], op[1:]
    if k == "random" and len(m.d):
        r = m.random(*a)
    elif k in ("random_assignment",):
        if m.get_size() == 0:
            m.random(2)
        r = m.random_assignment(*a)
    elif k == "fit":
        if c["kind"] in ("fr", "eq", "dir"):
            a = [[x % 2 for x in a[0]]]
        r = m.fit(np.array(a[0]))
    else:
        r = getattr(m, k)(*a)
    return r


def l03_weights(seed, sid, c):
    """Twins of a weighting model."""
    w = World(seed, c, "L03")
    rnd = w.rnd
    how = rnd.choice(["gen", "int"])
    s0 = seed % 1000
    objs = {}
    for n in "ab":
        w.stir()
        g = np.random.default_rng(s0) if how == "gen" else s0
        objs[n] = getattr(wm, W.CLS[c["kind"]])(rng=g, **copy.deepcopy(c["kw"]))
        w.evs.append(event(op="new", o=n, par=w.par + str(s0), gen="%s %d" % (how, s0)))
    for op in w_history(rnd, c):
        for n in "ab":
            w.stir()
            r, err = call(lambda: w_call(objs[n], c, op))
            e = event(op="w", o=n, call=repr(op), err=err)
            if not err:
                e["dig"], e["num"] = answer(r)
                e["obs"] = obs(n, objs[n], "w")
            else:
                e["err"], e["dig"] = "", err      # the same refusal for both
            w.evs.append(e)
    return w.done(sid)


def elsewhere(seed, c):
    """What a twin shows, to be run in another process."""
    w = World(seed, c, "L03", same_dim=True)
    w.new("a", seed=seed % 1000, how="int")
    w.fit("a", "g", "A", False)
    w.query("a", "gibbs_eap_density", "X")
    if w.var:
        w.fit("a", "v", "A", False)
        w.query("a", "var_eap_density", "X")
    return w


def l03_process(seed, sid, c):
    code = "import sys, json; sys.path.insert(0, %r); import life; " \
           "print(json.dumps(life.elsewhere(%d, json.loads(sys.argv[1])).evs))" % (
               os.path.join(VERIF, "harness"), seed)
    w = elsewhere(seed, c)
    for hs in ("1", "77"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code, json.dumps(c)], env=env, text=True,
                           capture_output=True, timeout=120)
        if p.returncode:
            raise RuntimeError(p.stderr[-2000:])
        for e in json.loads(p.stdout.splitlines()[-1]):
            e["o"] = "p" + hs
            for x in e["obs"]:
                x["o"] = "p" + hs
            w.evs.append(e)
    return w.done(sid)


# --------------------------------------------------------------------- L04
def forms(rnd, y0, exact=False):
    """Ways of giving the same data (exact: that also lead to the same layout, for results equal bit for bit)."""
    n, d = y0.shape
    y = np.array(y0)
    out = [lambda: np.array(y), lambda: y.tolist(), lambda: np.repeat(y, 2, axis=0)[::2],
           lambda: [np.array(v) for v in y], lambda: [tuple(v) for v in y.tolist()]]
    if d == 1 or not exact:
        out += [lambda: pd.DataFrame(np.array(y)), lambda: np.array(y, order="F"),
                lambda: pd.DataFrame(np.array(y), columns=["c%d" % i for i in range(d)],
                                     index=rnd.sample(range(100), n)),
                lambda: pd.DataFrame({("k", i): np.array(y[:, i]) for i in range(d)})]
    if np.array_equal(y, np.round(y)):
        out += [lambda: y.astype(int), lambda: y.astype(int).tolist(), lambda: pd.DataFrame(y.astype(np.int64)),
                lambda: y.astype(np.int32)]
    if d == 1:
        out += [lambda: np.array(y[:, 0]), lambda: y[:, 0].tolist(), lambda: pd.Series(np.array(y[:, 0])),
                lambda: pd.Series(np.array(y[:, 0]), name="x", index=rnd.sample(range(100), n)),
                lambda: np.repeat(y[:, 0], 3)[::3]]
        if np.array_equal(y, np.round(y)):
            out += [lambda: y[:, 0].astype(int), lambda: [int(v) for v in y[:, 0]], lambda: pd.Series(y[:, 0].astype(int))]
        if n == 1:
            v = float(y[0, 0])
            out += [lambda: v, lambda: np.float64(v)]
            if v == round(v):
                out += [lambda: int(v), lambda: np.int64(v)]
    return out


def scribble(x):
    """Changes an object of the caller, in place."""
    if isinstance(x, np.ndarray):
        x[...] = -77
    elif isinstance(x, pd.DataFrame):
        x.iloc[:, :] = -77
        if not any("new" in np.ravel([c]).tolist() for c in x.columns):
            x.insert(0, "new", 1)
    elif isinstance(x, pd.Series):
        x.iloc[:] = -77
    elif isinstance(x, list):
        for r in x:
            if isinstance(r, list):
                r[:] = [-77] * len(r)
        x[:] = x[::-1] if x and isinstance(x[0], list) else [-77] * len(x)


BADDATA = [lambda: "abc", lambda: {"a": [1.]}, lambda: object(), lambda: {1., 2.}]


def l04(seed, sid, c, warm=False):
    exact = seed % 5 < 2
    w = World(seed, c, "L04", approx=not exact, same_dim=True)
    rnd, r = w.rnd, w.r
    if rnd.random() < .35:
        for k in w.data:
            w.data[k] = np.round(w.data[k] * 2)
    elif exact:                             # every digit counts
        for k in w.data:
            w.data[k] = w.data[k] * np.pi + rnd.choice([0, 1000 / 3])
    y = w.data["A"]
    d = y.shape[1]
    fs = forms(rnd, y, exact)
    kinds = ["g"] + (["v"] if w.var else [])
    used = []
    names = []
    pf = ["A", "list", "float"]
    for i in range(4):
        n = "o%d" % i
        f = fs[0] if i == 0 else rnd.choice(fs[1:])
        # priors in several forms as well
        kw0 = copy.deepcopy(w.kw)
        if i and "mu_prior" in w.kw:
            mu = np.array(w.kw["mu_prior"], dtype=float)
            w.kw["mu_prior"] = rnd.choice([mu.tolist(), mu, pd.Series(mu)]) if d > 1 else rnd.choice([mu.tolist(), mu])
        if i and "psi_prior" in w.kw:
            psi = np.array(w.kw["psi_prior"])
            w.kw["psi_prior"] = rnd.choice([psi.tolist(), psi] + [np.asfortranarray(psi)] * (not exact))
        mine = copy.deepcopy(w.kw)
        gen = np.random.Generator(np.random.PCG64(seed))
        m = getattr(mm, gibbs.MIX[c["kind"]])(rng=gen, total_iter=w.T, burn_in=w.B, subsample_steps=w.s,
                                              **copy.deepcopy(c["kw"]), **mine)
        w.kw = kw0
        w.ms[n], w.gens[n] = m, gen
        names.append(n)
        w.evs.append(event(op="new", o=n, par=w.par, gen="gen %d" % seed))
        pri = [mine[k] for k in ("mu_prior", "psi_prior") if k in mine]
        before = [shape(p) for p in pri]
        for k in kinds:
            x = f()
            if w.fit(n, k, "A", False, y=x):
                return w.done(sid)
            w.evs[-1]["ins"] += [[b, shape(p)] for b, p in zip(before, pri)]
            w.evs[-1]["obs"] = [o for o in w.evs[-1]["obs"] if o["what"] != "gen"]
            used.append(x)
        if i and rnd.random() < .6:        # the caller goes on using what was passed
            for x in used + pri:
                scribble(x)
        w.evs.append(event(op="noise", obs=[o for o in w.look(n) if o["what"] != "gen"]))
        q = rnd.choice(GQ[:4])
        w.query(n, q, "", look=False)
        if w.var:
            w.query(n, rnd.choice(VQ[:4]), "", look=False)
        if rnd.random() < .5:
            for k in kinds:
                w.fit(n, k, "A", True, y=rnd.choice(fs)(), quiet=False)
                w.evs[-1]["obs"] = [o for o in w.evs[-1]["obs"] if o["what"] != "gen"]
            if i:
                names.pop()
    # query points
    for nm, pts in (("X", np.round(w.points("X", d))), ("Z", w.points("X", d)), ("1", np.round(w.points("X", d)[:1])),
                    ("2", w.points("X", d)[:1])):
        pf = forms(rnd, np.array(pts), exact)
        for q in rnd.sample(GQ[:4] + (VQ[:4] if w.var else ()), 2):
            for j in range(3):
                x = (pf[0] if j == 0 else rnd.choice(pf))()
                w.query(names[0], q, nm, x=x, look=False)
    for f in rnd.sample(BADDATA, 2):
        k = rnd.choice(kinds)
        m = w.ms[names[0]]
        q = rnd.choice(GQ[:4] + (VQ[:4] if w.var else ()))
        _, err = call(lambda: getattr(m, q)(f()))
        w.evs.append(event(op="bad", err=err, want="TypeError", obs=[o for o in w.look(names[0]) if o["what"] != "gen"]))
        m2 = w.make(3)
        # the data are all that is wrong with this call
        _, err = call(lambda: m2.fit_gibbs(f()) if k == "g" else m2.fit_variational(f(), n_groups=w.k))
        w.evs.append(event(op="bad", err=err, want="TypeError"))
    return w.done(sid)


def l04_weights(seed, sid, c):
    """Assignments given to the weighting models in several forms, changed afterwards."""
    w = World(seed, c, "L04", approx=True)
    rnd = w.rnd
    d = [rnd.randrange(2 if c["kind"] in ("fr", "eq", "dir") else 4) for _ in range(rnd.randint(1, 7))]
    vd = w.r.dirichlet([1.] * w.k, size=5).T
    fs = [lambda: np.array(d), lambda: list(d), lambda: np.array(d, dtype=np.int32), lambda: np.repeat(d, 2)[::2]]
    for i, f in enumerate(fs):
        n = "w%d" % i
        kw = copy.deepcopy(c["kw"])
        m = getattr(wm, W.CLS[c["kind"]])(rng=5, **kw)
        w.evs.append(event(op="new", o=n, par=w.par + "5", gen="int 5"))
        x = f()

        def do(name, g, arg=None):
            b = shape(arg)
            r, err = call(g)
            e = event(op="w", o=n, call=name, err=err, ins=[[b, shape(arg)]])
            if not err:
                e["dig"], e["num"] = answer(r)
                e["obs"] = obs(n, m, "w")
            w.evs.append(e)
        do("fit", lambda: m.fit(x), x)
        if i:
            for z in kw.values():
                scribble(z)
            scribble(x)
        do("random", lambda: m.random(4))
        do("tail", lambda: m.tail(.5))
        xx = f()
        do("assign", lambda: m.assignation_log_likelihood(xx) if not isinstance(xx, list) else
           m.assignation_log_likelihood(np.array(xx)), xx)
        if w.var:
            v = np.array(vd) if i % 2 else np.array(vd, order="F")
            do("fitvar", lambda: m.fit_variational(v), v)
            if i:
                scribble(v)
            do("mean", lambda: [m.variational_mean_w_j(j) for j in range(w.k)] + [m.variational_mean_log_p_d__w()])
    return w.done(sid)


# --------------------------------------------------------------------- L06
BADINIT = ["typo", "", "KMEANS", "k-means", None, 0, "prior", ["kmeans"]]


def refuse(w, name, m, kind):
    """A call that is refused, and what the object shows afterwards."""
    o, rnd = w.ms[name], w.rnd
    fit = o.fit_gibbs if m == "g" else o.fit_variational
    y = np.array(w.data[rnd.choice("AB")])[:rnd.choice([None, 3])] * rnd.choice([1, 1, 5]) + rnd.choice([0, 1])
    kw = {}
    if m == "v" and rnd.random() < .5:
        kw = dict(tol=.5)
    if rnd.random() < .3:
        kw["show_progress"] = False
    if kind == "data":
        if m == "v":
            kw["n_groups"] = w.k
        if rnd.random() < .3:
            kw["warm_start"] = o.gibbs_fitted if m == "g" else o.var_fitted
        f = rnd.choice(BADDATA)
        _, err = call(lambda: fit(f(), **kw))
    elif kind == "init":
        i = rnd.choice(BADINIT + (["variational"] if m == "v" else []))
        if m == "v":
            kw["n_groups"] = w.k
        elif rnd.random() < .5:
            kw["init_groups"] = 2
            kw.pop("tol", None)
        _, err = call(lambda: fit(y, init_method=i, **kw))
    elif kind == "groups":
        kw["init_method"] = rnd.choice(["kmeans", "random"])
        _, err = call(lambda: fit(y, **kw))
    else:
        q = rnd.choice([q for q in (GQ if m == "g" else VQ) if "spectral" not in q])
        f = rnd.choice(BADDATA)
        _, err = call(lambda: getattr(o, q)(f()))
    w.evs.append(event(op="no", o=name, m=m, kind=kind, err=err, obs=w.look(name)))


def l06(seed, sid, c, h):
    """An object that makes calls that are refused and its twin that does not."""
    w = World(seed, c, "L06", same_dim=True)
    rnd = w.rnd
    has_n = c["kind"] in ("dir", "eq", "fr")
    dim = w.data["A"].shape[1]

    def both(q, p):
        for n in "ba":
            w.query(n, q, p, x=np.array(w.points(p, dim)) if p else None)
    w.new("a", seed=seed % 1000)
    w.new("b", seed=seed % 1000)
    for e in h:
        k = e["op"][-1] if e["op"][:2] == "no" else e["op"][0]
        if not w.var and (k == "v" or e["op"] in ("vfit", "qv")):
            continue
        if e["op"] in ("nog", "nov"):
            if e["d"] == "groups" and has_n:
                continue
            for _ in range(rnd.choice([1, 1, 2])):
                refuse(w, "a", k, e["d"])
            if rnd.random() < .5:           # what it shows through the queries
                q = rnd.choice(GQ[:4] + (VQ[:4] if w.var else ()))
                p = rnd.choice(["", "X"])
                both(q, p)
        elif e["op"] in ("gfit", "vfit"):
            if e["warm"] and not w.dim_ok("a", k, e["d"]):
                continue
            if w.fit("a", k, e["d"], e["warm"]) or w.fit("b", k, e["d"], e["warm"]):
                return w.done(sid)
        else:
            q = rnd.choice(GQ if e["op"] == "qg" else VQ)
            both(q, e["d"])
    for k in "gv":
        if (w.ms["a"].gibbs_fitted if k == "g" else w.ms["a"].var_fitted) and k in "gv"[:1 + w.var]:
            for q in rnd.sample(GQ[:4] if k == "g" else VQ[:4], 2):
                both(q, "")
    for k in "gv"[:1 + w.var]:
        d = w.on.get(("a", k))
        warm = d is not None and w.dim_ok("a", k, d)
        if w.fit("a", k, d or "A", warm) or w.fit("b", k, d or "A", warm):
            break
    return w.done(sid)


def w_refuse(rnd, c, m):
    """Refused calls of a weighting model: kind and call."""
    kinds = ["tail", "assign"]
    if c["kind"] not in ("eq", "fr"):
        kinds += ["size"] * 2
    if c["kind"] not in ("eq", "fr", "dir") and len(m.d) == 0:
        kinds += ["empty"] * 2
    if c["kind"] == "dir" and len(m.d) and max(m.d) >= len(c["par"]["dalpha"]):
        return "beyond", lambda: m.random(rnd.choice([None, 2]))
    k = rnd.choice(kinds)
    bad = rnd.choice(["3", 2.5, 1.5, "x"])
    if k == "tail":
        x = rnd.choice([1, 1., 1.5, -.1, -1e-9, 7, 1 + 1e-12, float("inf")])
        return k, lambda: m.tail(x)
    if k == "size":
        f = rnd.choice(["random", "complete"]) if c["kind"] != "dir" else "complete"
        return k, lambda: getattr(m, f)(bad)
    if k == "assign":
        return k, lambda: m.random_assignment(rnd.choice(["a", {}, object()]))
    return k, lambda: m.random()


def l06_weights(seed, sid, c):
    w = World(seed, c, "L06")
    rnd = w.rnd
    s0 = seed % 1000
    objs = {n: getattr(wm, W.CLS[c["kind"]])(rng=np.random.default_rng(s0), **copy.deepcopy(c["kw"])) for n in "ab"}
    for n in "ab":
        w.evs.append(event(op="new", o=n, par=w.par + str(s0), gen="gen %d" % s0))

    def no():
        kind, f = w_refuse(rnd, c, objs["a"])
        _, err = call(f)
        w.evs.append(event(op="no", o="a", m="", kind=kind, err=err, obs=obs("a", objs["a"], "w")))
    if rnd.random() < .5:
        no()
    for op in w_history(rnd, c):
        for n in "ba":
            r, err = call(lambda: w_call(objs[n], c, op))
            e = event(op="w", o=n, call=repr(op), err=err)
            if not err:
                e["dig"], e["num"] = answer(r)
                e["obs"] = obs(n, objs[n], "w")
            else:
                e["err"], e["dig"] = "", err
            w.evs.append(e)
        if rnd.random() < .6:
            no()
        if c["kind"] == "dir" and rnd.random() < .3:      # groups the structure does not have
            d = [0, len(c["par"]["dalpha"]) + rnd.randrange(3), 1]
            for n in "ba":
                r, err = call(lambda: objs[n].fit(np.array(d)))
                w.evs.append(event(op="w", o=n, call="fit %r" % d, err=err, dig=digest(None)))
            no()
            d = [0, 1, 1]
            for n in "ba":
                r, err = call(lambda: objs[n].fit(np.array(d)))
                w.evs.append(event(op="w", o=n, call="fit %r" % d, err=err, dig=digest(None)))
    return w.done(sid)


def plans(big, bad=()):
    text = ("SPECIFICATION Spec\nCONSTANTS MaxLen = %d Datas = {\"A\", \"B\"} Bad = {%s} Prn = TRUE\n"
            "INVARIANTS Enabled Traceless Emit\nPROPERTIES Forgets Quiet Fresh\nCHECK_DEADLOCK FALSE\n") % (5 if big and not bad else 4, ", ".join('"%s"' % b for b in bad))
    r = tlc("MCSession", text, workers=8)
    if r["rc"]:
        raise RuntimeError(r["error"])
    hs = [json.loads(json.loads(x)[5:]) for x in r["out"].splitlines() if x.startswith('"HIST ')]
    hs.sort(key=json.dumps)
    return hs, r["distinct"]
