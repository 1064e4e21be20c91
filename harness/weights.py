"""Drives the weighting models along operation histories and records them."""
import copy
import json
import random
import re

from common import np, fnum, vec, ints, call, spying, REC, tlc
from pyrichlet import weight_models as wm

CLS = dict(dir="DirichletDistribution", dp="DirichletProcess", py="PitmanYorProcess",
           geo="GeometricProcess", bib="BetaInBeta", bid="BetaInDirichlet", bb="BetaBernoulli",
           bn="BetaBinomial", eq="EqualWeighting", fr="FrequencyWeighting")


def par(alpha=1, d=0, a=1, b=1, x=0, p=0, n=0, dalpha=()):
    return dict(alpha=fnum(alpha), d=fnum(d), a=fnum(a), b=fnum(b), x=fnum(x), p=fnum(p),
                n=int(n), dalpha=vec(dalpha))


def cfg(kind, kw, p, **k):
    c = dict(kind=kind, kw=kw, par=p, special=False, **k)
    c.setdefault("lkind", kind)
    c.setdefault("lpar", p)
    return c


def configs():
    """General configurations (W01..W05, W07, W08)."""
    o = []
    for al in ([1, 1, 1, 1], [.5, 2, 3.5, 1]):
        o.append(cfg("dir", dict(n=4, alpha=list(al)), par(dalpha=al, n=4)))
    o.append(cfg("dir", dict(n=4, alpha=.7), par(dalpha=[.7] * 4, n=4)))
    for al in (1, 2.5, .6):
        o.append(cfg("dp", dict(alpha=al), par(alpha=al)))
    for d, al in ((.3, 1), (.15, 2.2), (.4, -.1), (0, 1.5)):
        o.append(cfg("py", dict(pyd=d, alpha=al), par(alpha=al, d=d)))
    for a, b in ((1, 1), (3, 2), (2.5, 4)):
        o.append(cfg("geo", dict(a=a, b=b), par(a=a, b=b)))
    for x, al, a, b in ((.5, 1, 1, 1), (.8, 2, 2, 3), (0, 1.7, 1, 1), (1, 1, 2, 2)):
        o.append(cfg("bib", dict(x=x, alpha=al, a=a, b=b), par(x=x, alpha=al, a=a, b=b)))
    o.append(cfg("bib", dict(x=.4, alpha=1.3, a=2, b=1, p_method="independent"),
                 par(x=.4, alpha=1.3, a=2, b=1)))
    o.append(cfg("bib", dict(x=.4, alpha=1.3, a=2, b=1, p_method="static"),
                 par(x=.4, alpha=1.3, a=2, b=1)))
    for a, al in ((1, 1), (.4, 2), (3, .8), (0, 1.2)):
        o.append(cfg("bid", dict(a=a, alpha=al), par(a=a, alpha=al)))
    for p, al in ((.5, 1), (.3, 2), (.8, .7), (1, 1.1), (0, 1.4)):
        o.append(cfg("bb", dict(p=p, alpha=al), par(p=p, alpha=al)))
    for n, al in ((1, 1), (5, 2), (10, .8), (0, 1.3)):
        o.append(cfg("bn", dict(n=n, alpha=al), par(n=n, alpha=al)))
    o.append(cfg("eq", dict(n=4), par(n=4)))
    o.append(cfg("fr", dict(n=4), par(n=4)))
    o.append(cfg("eq", dict(n=1), par(n=1)))
    return o


def special_configs():
    """Boundary configurations and the simpler process each one must be (W06)."""
    o = []

    def sp(kind, kw, p, lkind, lpar):
        c = cfg(kind, kw, p)
        c.update(special=True, lkind=lkind, lpar=lpar)
        o.append(c)
    for al in (1, 2.3, .7):
        sp("py", dict(pyd=0, alpha=al), par(alpha=al), "dp", par(alpha=al))
        for a, b in ((1, 1), (2, .5)):
            sp("bib", dict(x=0, alpha=al, a=a, b=b), par(x=0, alpha=al, a=a, b=b), "dp", par(alpha=al))
        sp("bb", dict(p=1, alpha=al), par(p=1, alpha=al), "dp", par(alpha=al))
        sp("bn", dict(n=0, alpha=al), par(n=0, alpha=al), "dp", par(alpha=al))
        sp("bb", dict(p=0, alpha=al), par(p=0, alpha=al), "geo", par(a=1, b=al))
        sp("bid", dict(a=0, alpha=al), par(a=0, alpha=al), "geo", par(a=1, b=al))
    for a, b in ((1, 1), (3, 2), (1.5, 2.5)):
        sp("bib", dict(x=1, a=a, b=b), par(x=1, a=a, b=b), "geo", par(a=a, b=b))
    return o


FITS = {1: [0, 0, 1, 3], 2: [2, 0, 2], 3: [3, 3, 3, 3, 3], 4: [0], 5: [1, 1, 0, 1, 2, 0],
        6: [5, 5, 2], 7: [0] * 12 + [1] * 3}
FITS_FINITE = {1: [0, 0, 1, 3], 2: [2, 0, 2], 3: [3, 3, 3, 3, 3], 4: [0], 5: [1, 1, 0, 1, 2, 0],
               6: [3, 2], 7: [0] * 12 + [1] * 3}
LLD = {1: [0, 0], 2: [0, 3, 1], 3: [2, 0, 1, 2]}
TAILS = {1: .5, 2: .9, 3: .97, 4: 0., 5: 1., 6: -.25, 7: 1.5}


def histories(depth, workers=4):
    """All operation histories of the given length, from TLC; plus its statistics."""
    text = ("SPECIFICATION Spec\nCONSTANTS Depth = %d NFits = 3 Sizes = {1, 4} Tails = {1, 2, 5}"
            " Prn = TRUE\nINVARIANTS KnownFits LatestFit Emit\nPROPERTIES AppendOnly FitOnly\n"
            "CHECK_DEADLOCK FALSE\n") % depth
    r = tlc("MCWeights", text, workers=workers)
    if r["rc"]:
        raise RuntimeError(r["error"])
    hs = set()
    for line in r["out"].splitlines():
        if line.startswith('"HIST '):
            hs.add(json.loads(line)[5:])
    return [json.loads(h) for h in sorted(hs)], r


class Run:
    """One model object and its recorded scenario."""
    def __init__(self, c, seed, rng_kind="int"):
        self.c, self.seed = c, seed
        self.evs = []
        self.len_w = 0
        kw = dict(c["kw"])
        if c.get("int_alpha"):
            kw["alpha"] = int(kw["alpha"])
        with spying():
            self.m = getattr(wm, CLS[c["kind"]])(rng=int(seed), **kw)
        self.d = []

    def scenario(self, sid):
        return dict(id=sid, kind=self.c["kind"], par=self.c["par"], special=self.c["special"],
                    **{"as": self.c["lkind"]}, aspar=self.c["lpar"], seed=int(self.seed), pm=pm(self.c),
                    kw={k: repr(v) for k, v in self.c["kw"].items()}, evs=self.evs)

    def observe(self, ev, err):
        m = self.m
        ev["err"] = err
        ev["beta"] = [[fnum(a), fnum(b), fnum(x)] for a, b, x in REC.beta[:300]]
        ev["dir"] = [[vec(a), vec(x)] for a, x in REC.dir[:20]]
        w = np.array(m.get_weights(), dtype=float)
        ev["w"] = vec(w)
        ev["size"] = int(m.get_size())
        if len(w):
            ev["nw"] = vec(m.get_normalized_weights())
            ev["cw"] = vec(m.get_normalized_cumulative_weights())
        else:
            ev["nw"], ev["cw"] = [], []
        p = getattr(m, "p", None)
        ev["p"] = fnum(p) if isinstance(p, (int, float, np.number)) else "nan"
        ev.setdefault("badsize", False)
        self.len_w = len(w)
        self.evs.append(ev)

    def do(self, ev, f, post=None):
        REC.clear()
        with spying():
            r, err = call(f, 15)
        if not err and post:
            try:
                post(ev, r)
            except Exception as e:       # malformed result of the library
                err = "Malformed" + type(e).__name__
        if err and post:
            post(ev, None)
        try:
            self.observe(ev, err)
        except Exception as e:           # malformed state of the library
            ev.update(err="Malformed" + type(e).__name__, w=[], nw=[], cw=[], size=-1, p="nan",
                      badsize=False)
            ev.setdefault("beta", []), ev.setdefault("dir", [])
            self.evs.append(ev)
        return err == ""

    def step(self, o, rnd):
        """One operation of a TLC history; returns False when it raised."""
        m, op, k = self.m, o["op"], o["k"]
        fin = self.c["kind"] in ("dir", "eq", "fr")

        def ret(ev, r):
            ev["ret"] = vec(r) if r is not None else []
        if op == "fit":
            d = list((FITS_FINITE if fin else FITS)[k])
            self.d = d
            arg = d if rnd.random() < .3 else np.array(d)
            return self.do(dict(op=op, fid=k, d=d), lambda: m.fit(arg))
        if op == "reset":
            self.d = []
            return self.do(dict(op=op), m.reset)
        if op == "random":
            if k == 0 and not fin and not len(self.d):
                k = 2
            if k == 0:
                return self.do(dict(op=op, n=-1), lambda: m.random(), ret)
            if fin and rnd.random() < .5:
                return self.do(dict(op=op, n=-1), lambda: m.random(), ret)
            return self.do(dict(op=op, n=k), lambda: m.random(k), ret)
        if op == "complete":
            return self.do(dict(op=op, n=k), lambda: m.complete(k), ret)
        if op == "badcomplete":
            return self.do(dict(op="complete", n=0, badsize=True), lambda: m.complete(o["v"]), ret)
        if op == "tail":
            x = TAILS[k] if "x" not in o else o["x"]
            return self.do(dict(op=op, x=fnum(x)), lambda: m.tail(x), ret)
        if op == "assignll":
            default = len(self.d) > 0 and (k == 3 or "dd" in o)
            d = list(LLD[k]) if not default else self.d
            if fin:
                lim = self.len_w if self.c["kind"] == "fr" and self.len_w else 4
                if self.c["kind"] == "fr":
                    lim = (max(self.d) + 1) if self.d else 4
                if self.c["kind"] == "eq":
                    lim = self.c["par"]["n"]
                if default and max(d) >= lim:
                    default = False
                if not default:
                    d = [j % lim for j in d]

            def post(ev, r):
                ev["ll"] = fnum(r) if r is not None else "nan"
            ev = dict(op=op, d=list(d), default=bool(default))
            if default:
                return self.do(ev, lambda: m.assignation_log_likelihood(), post)
            return self.do(ev, lambda: m.assignation_log_likelihood(np.array(d)), post)
        if op == "wll":
            def post(ev, r):
                ev["ll"] = fnum(r) if r is not None else "nan"
            return self.do(dict(op=op), lambda: m.weighting_log_likelihood(), post)
        if op == "rassign":
            n = -1 if rnd.random() < .3 else int(rnd.choice([1, 3, 7]))

            def post(ev, r):
                ev["shape"] = [] if r is None else list(np.shape(r))
                ev["out"] = [] if r is None else ints(r)
                if r is not None and not np.all(np.asarray(r) == np.asarray(r).astype(int)):
                    ev["out"] = [-1]
            return self.do(dict(op=op, n=n),
                           (lambda: m.random_assignment()) if n < 0 else (lambda: m.random_assignment(n)), post)
        if op == "rfreq":
            N = o["N"]

            def post(ev, r):
                K = self.len_w
                r = np.zeros(0, int) if r is None else np.asarray(r)
                ev["cnt"] = [int(np.sum(r == j)) for j in range(K)]
                a, b = r[0:N - 1:2], r[1:N:2]
                ev["pair"] = [[int(np.sum((a == i) & (b == j))) for j in range(K)] for i in range(K)]
            return self.do(dict(op=op, N=N), lambda: m.random_assignment(N), post)
        if op == "rsmall":
            N, sz = o["N"], o["s"]

            def go():
                return np.array([m.random_assignment(sz) for _ in range(N)])

            def post(ev, r):
                K = self.len_w
                r = np.zeros((0, sz), int) if r is None else np.asarray(r)
                w = np.array(m.get_weights(), dtype=float)
                q = w / w.sum()
                tab = lambda a, b: [[int(np.sum((a == i) & (b == j))) for j in range(K)]   # noqa: E731
                                    for i in range(K)]
                ev["within"] = tab(r[:, 0], r[:, 1])
                ev["across"] = tab(r[0:N - 1:2, -1], r[1:N:2, 0])
                ev["sq"] = [fnum(((np.sum(r == j, axis=1) - sz * q[j]) ** 2).sum()) for j in range(K)]
            return self.do(dict(op=op, N=N, s=sz), go, post)
        raise KeyError(op)


def run_history(c, h, seed, sid):
    rnd = random.Random(seed)
    r = Run(c, seed)
    for o in h:
        if o["op"] in ("wll", "rassign", "rfreq", "rsmall") and r.len_w == 0:
            continue
        if not r.step(o, rnd):
            if r.evs[-1]["op"] == "tail" and not 0 <= float(r.evs[-1]["x"]) < 1:
                continue
            if r.evs[-1]["badsize"]:
                continue
            break
        if r.len_w > 250:
            break
    return r.scenario(sid)


def many(c, d, how, N, J, seed):
    """Moments of N independent structures of J sticks."""
    from common import _default_rng
    fin = c["kind"] == "dir"
    g = _default_rng(seed)
    ev = dict(op="mom", N=N, how=how, d=list(d), err="")
    V = np.zeros((N, J))
    P = np.zeros(N)

    def go():
        m = getattr(wm, CLS[c["kind"]])(rng=g, **c["kw"])
        for i in range(N):
            if how == "fresh":
                m = getattr(wm, CLS[c["kind"]])(rng=g, **c["kw"])
            if how == "refit" and len(d):
                m.reset()
                m.random(2) if not fin else m.random()
            if len(d):
                m.fit(np.array(d))
            if how == "grow":
                m.random(1) if not fin else m.random()
                for k in range(2, J + 1):
                    m.complete(k)
            elif how == "tail":
                m.random(1) if not fin else m.random()
                m.tail(.3)
                m.complete(J)
            elif how == "fresh":
                m.complete(J)
            elif how == "refit":
                m.random(J)
            else:
                m.random(J)
            w = np.asarray(m.get_weights(), float)[:J]
            if fin:
                V[i] = w
            else:
                left = 1 - np.concatenate(([0], np.cumsum(w)[:-1]))
                ok = left > 1e-9
                V[i] = np.clip(np.where(ok, w / np.where(ok, left, 1), np.nan), 0, 1)
            P[i] = getattr(m, "p", np.nan) if isinstance(getattr(m, "p", None), (int, float, np.number)) else np.nan
        return True
    _, err = call(go, 120)
    ev["err"] = err
    return ev, V, P


def moment_scenario(c, d, how, N, J, seed, sid):
    ev, V, P = many(c, d, how, N, J, seed)
    V = V[np.all(np.isfinite(V), axis=1)] if np.isnan(V).any() else V
    if len(V) < .98 * N:
        V = V[:0]
    ev["N"] = int(len(V))
    ev["s1"] = vec(V.sum(0))
    ev["s2"] = vec((V ** 2).sum(0))
    ev["cr"] = vec((V[:, :-1] * V[:, 1:]).sum(0)) if J > 1 else []
    close = lambda a, b: np.abs(a - b) <= 1e-9 + 1e-7 * np.abs(a)   # noqa: E731
    D2 = (V[:, :, None] - V[:, None, :]) ** 2
    ev["q2"] = [vec(x) for x in D2.sum(0)]
    ev["q4"] = [vec(x) for x in (D2 ** 2).sum(0)]
    ev["q2m"] = [vec(x) for x in (D2.max(0) if len(V) else D2.sum(0))]
    ev["tie"] = [0] + [int(close(V[:, j], V[:, j - 1]).sum()) for j in range(1, J)]
    ev["old"] = [0] + [int(np.any(close(V[:, [j]], V[:, :j]), axis=1).sum()) for j in range(1, J)]
    r = dict(id=sid, kind=c["kind"], par=c["par"], special=c["special"], aspar=c["lpar"], pm=pm(c),
             seed=seed, kw={k: repr(v) for k, v in c["kw"].items()}, evs=[_pad(ev)])
    r["as"] = c["lkind"]
    return r


def pit_scenario(c, d, how, N, J, seed, sid):
    ev, V, P = many(c, d, how, N, J, seed)
    ev["op"] = "pit"
    ok = np.all(np.isfinite(V), axis=1)
    ev["smp"] = [[fnum(p), vec(v)] for p, v in zip(P[ok], V[ok])] if not ev["err"] else []
    r = dict(id=sid, kind=c["kind"], par=c["par"], special=False, aspar=c["lpar"], seed=seed, pm=pm(c),
             kw={k: repr(v) for k, v in c["kw"].items()}, evs=[_pad(ev)])
    r["as"] = c["lkind"]
    return r


def pdraw_scenario(c, d, J, N, seed, sid, how="random_p"):
    """The common parameter of beta-in-beta redrawn N times after one fit, the sticks drawn before it being kept
    (by itself, or starting a draw of the structure, every time from the same object)."""
    from common import _default_rng
    ev = dict(op="pdraw", d=list(d), v=[], ps=[], p0="nan")

    def go():
        m = getattr(wm, CLS[c["kind"]])(rng=_default_rng(seed), **c["kw"])
        w = np.asarray(m.random(J), float)[:J]
        ev["v"] = vec(w / (1 - np.concatenate(([0], np.cumsum(w)[:-1]))))
        m.fit(np.array(d))
        ev["p0"] = fnum(m.p)
        if how == "random_p":
            ev["ps"] = [fnum(m.random_p()) for _ in range(N)]
        else:
            for i in range(N):
                m2 = copy.copy(m)          # shares the generator
                m2.random(*([] if i % 3 else [J + i % 2]))
                ev["ps"].append(fnum(m2.p))
        return True
    _, ev["err"] = call(go, 120)
    r = dict(id=sid, kind=c["kind"], par=c["par"], special=False, aspar=c["lpar"], seed=seed, pm=pm(c),
             kw={k: repr(v) for k, v in c["kw"].items()}, evs=[_pad(ev)])
    r["as"] = c["lkind"]
    return r


def pm(c):
    return c["kw"].get("p_method", "geometric")


def p_configs():
    o = []
    for k in ("static", "independent", "geometric", "max-likelihood", "inverse-sampling"):
        for x, al, a, b in ((.5, 1, 1, 1), (.8, 1.5, 2, 3)):
            o.append(cfg("bib", dict(x=x, alpha=al, a=a, b=b, p_method=k), par(x=x, alpha=al, a=a, b=b)))
    return o


def _pad(ev):
    for k, v in dict(w=[], nw=[], cw=[], size=0, p="nan", badsize=False, beta=[], dir=[]).items():
        ev.setdefault(k, v)
    return ev
