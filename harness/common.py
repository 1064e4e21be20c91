"""Shared machinery: recording spies, TLC runs, verdicts and evidence."""
import contextlib
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import numpy as np  # noqa: E402
from scipy import stats  # noqa: E402

np.seterr(all="ignore")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
WORK = tempfile.mkdtemp(prefix="verif-")


def cleanup():
    shutil.rmtree(WORK, ignore_errors=True)


# --------------------------------------------------------------- numbers
def fnum(x):
    x = float(x)
    if x != x:
        return "nan"
    if x == float("inf"):
        return "inf"
    if x == float("-inf"):
        return "-inf"
    return repr(x)


def vec(x):
    return [fnum(v) for v in np.asarray(x, dtype=float).ravel()]


def mat(x):
    return [vec(r) for r in np.atleast_2d(np.asarray(x, dtype=float))]


def ints(x):
    return [int(v) for v in np.asarray(x).ravel()]


# -------------------------------------------------------------- timeouts
class OpTimeout(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    """Of processor time, so that a busy or suspended machine is not a verdict."""
    def h(*_):
        raise OpTimeout()
    old = [signal.signal(s, h) for s in (signal.SIGPROF, signal.SIGALRM)]
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, 100 + 5 * seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        for s, f in zip((signal.SIGPROF, signal.SIGALRM), old):
            signal.signal(s, f)


TIMEOUTS = [0]      # of this process: the rest of its calls are given less time


def call(f, seconds=20):
    """Runs a library call: (result, error name)."""
    try:
        with limit(seconds if TIMEOUTS[0] < 2 else min(seconds, 2)):
            return f(), ""
    except OpTimeout:
        TIMEOUTS[0] += 1
        return None, "Timeout"
    except Exception as e:          # noqa: BLE001 - any error is an outcome
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return None, type(e).__name__


# ------------------------------------------------------------------ spies
class Rec:
    """What was asked from the random number generators."""
    def __init__(self):
        self.clear()

    def clear(self):
        self.beta, self.dir, self.binom, self.unif = [], [], [], []
        self.niw_s, self.niw_m = [], []


REC = Rec()
_Gen = np.random.Generator
_default_rng = np.random.default_rng


class SpyGenerator(_Gen):
    """Same stream as numpy's Generator; remembers what it drew."""
    def beta(self, a, b, size=None):
        x = super().beta(a, b, size)
        if len(REC.beta) < 4000:
            A, B, X = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float), np.asarray(x))
            REC.beta += list(zip(A.ravel(), B.ravel(), X.ravel()))
        return x

    def dirichlet(self, alpha, size=None):
        x = super().dirichlet(alpha, size)
        if np.ndim(x) == 1:
            REC.dir.append((np.array(alpha, float), np.array(x)))
        return x


CREATED = []       # generators made while spying


def spy_default_rng(seed=None):
    if isinstance(seed, (_Gen,)):
        return seed
    g = SpyGenerator(_default_rng(seed).bit_generator)
    CREATED.append(g)
    return g


_IWG, _MNG = type(stats.invwishart), type(stats.multivariate_normal)
_iw_rvs, _mn_rvs = _IWG.rvs, _MNG.rvs


def _spy_iw(self, df, scale, size=1, random_state=None):
    x = _iw_rvs(self, df, scale, size=size, random_state=random_state)
    if len(REC.niw_s) < 400 and np.ndim(x) in (0, 2):
        REC.niw_s.append((float(df), np.atleast_2d(np.array(scale, float)), np.atleast_2d(np.array(x, float))))
    return x


def _spy_mn(self, mean=None, cov=1, size=1, random_state=None, **kw):
    x = _mn_rvs(self, mean=mean, cov=cov, size=size, random_state=random_state, **kw)
    if len(REC.niw_m) < 400 and np.ndim(x) in (0, 1) and mean is not None:
        try:
            c = np.atleast_2d(np.array(cov, float))
        except (TypeError, ValueError):
            return x
        REC.niw_m.append((np.atleast_1d(np.array(mean, float)), c, np.atleast_1d(np.array(x, float))))
    return x


@contextlib.contextmanager
def spying():
    np.random.default_rng = spy_default_rng
    _IWG.rvs, _MNG.rvs = _spy_iw, _spy_mn
    try:
        yield
    finally:
        np.random.default_rng = _default_rng
        _IWG.rvs, _MNG.rvs = _iw_rvs, _mn_rvs


# -------------------------------------------------------------------- TLC
_built = None


def build_override():
    """Compiles the TLC override of module F64 into a scratch directory."""
    global _built
    if _built is None:
        out = os.path.join(WORK, "classes")
        os.makedirs(out)
        subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", out, os.path.join(SPEC, "F64.java")],
                       check=True, capture_output=True)
        _built = out
    return _built


class TlcError(Exception):
    pass


class IllFormed(TlcError):
    def __init__(self, text, t, l):
        super().__init__(text)
        self.t, self.l = t, l


def in_library(e):
    """Was the exception raised within a call to the library?"""
    if isinstance(e, (MemoryError, TlcError, subprocess.SubprocessError)):
        return False
    import pyrichlet
    root = os.path.dirname(os.path.abspath(pyrichlet.__file__)) + os.sep
    tb = e.__traceback__
    while tb:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def tlc(module, cfg, env=None, workers=4, timeout=800, extra=(), heap="10g"):
    """Runs TLC on spec/<module>.tla with the configuration text cfg."""
    cls = build_override()
    d = tempfile.mkdtemp(dir=WORK)
    c = os.path.join(d, module + ".cfg")
    open(c, "w").write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
           "-cp", os.pathsep.join([cls, TLA, CM]), "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + d,
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-nowarning", "-noGenerateSpecTE", "-config", c, *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, cwd=d, env=e, text=True, capture_output=True, timeout=timeout)
    out = p.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    res = dict(out=out, rc=p.returncode, generated=int(m[-1][0]) if m else 0,
               distinct=int(m[-1][1]) if m else 0)
    if p.returncode != 0:
        keep = os.path.join(VERIF, "evidence", "tlc-error.txt")
        try:
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            open(keep, "w").write(out + p.stderr)
        except OSError:
            pass
        res["error"] = (out + p.stderr)[-3000:]
    return res


def laws_model(big):
    """Checks that the laws of the specification fit together (MCLaws); states explored."""
    text = ("SPECIFICATION Spec\nCONSTANTS MaxN = %d Groups = %d\n"
            "INVARIANTS Bayes Tying Urn Stationary Reversible Conjugate\nCHECK_DEADLOCK FALSE\n") % ((6, 4) if big else (3, 4))
    r = tlc("MCLaws", text, workers=8)
    if r["rc"]:
        raise RuntimeError(r["error"])
    return r["generated"]


def unnull(x):
    """What was not observed is the empty string."""
    if isinstance(x, dict):
        return {k: unnull(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [unnull(v) for v in x]
    return "" if x is None else x


def write_trace(path, scenarios):
    with open(path, "w") as f:
        for s in scenarios:
            x = json.dumps(s)
            f.write((json.dumps(unnull(s)) if "null" in x else x) + "\n")


def evaluation_error(out):
    """(scenario, step) at which what was observed is outside the domain of the specification, if that is the error."""
    if not re.search("The error occurred when TLC was evaluating|TLC threw an unexpected exception|Attempted to", out):
        return None
    if re.search("OutOfMemory|StackOverflow", out):
        return None
    ts = re.findall(r"^(?:/\\ )?t = (\d+)", out, re.M)
    ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
    return (int(ts[-1]) - 1, int(ls[-1]) - 1) if ts and ls else None


TRACE_CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
_cnt = [0]


def check_traces(module, scenarios, prop, workers=6, timeout=800, invs=()):
    """Validates recorded scenarios; returns (violations, stats).

    violations: list of dict(scenario index, step, clauses)."""
    if not scenarios:
        return [], dict(generated=0, distinct=0, done=0)
    _cnt[0] += 1
    path = os.path.join(WORK, "trace%d.ndjson" % _cnt[0])
    write_trace(path, scenarios)
    cfg = TRACE_CFG + "".join("INVARIANT %s\n" % i for i in invs)
    r = tlc(module, cfg, env=dict(TRACE=path, PROP=prop), workers=workers, timeout=timeout)
    if r["rc"] != 0:
        x = evaluation_error(r["out"])
        if x is None:
            raise TlcError(r["error"])
        raise IllFormed(r["error"], *x)
    bad = []
    out = re.sub(r"\s*\n\s+", " ", r["out"])
    for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\{.*\})\s*>>\s*$', out, re.M):
        bad.append(dict(t=int(m[1]) - 1, l=int(m[2]) - 1,
                        clauses=sorted(set(re.findall(r'<<\s*"(\w+)",\s*"([^"]*)"\s*>>', m[3])))))
    done = set(re.findall(r'<<\s*"DONE",\s*(\d+)\s*>>', out))
    nraw = out.count('"BAD"')
    if len(done) != len(scenarios) or nraw != len(bad):
        raise TlcError("trace not consumed: %d of %d scenarios, %d/%d verdicts\n%s" % (
            len(done), len(scenarios), len(bad), nraw, r["out"][-2000:]))
    return bad, dict(generated=r["generated"], distinct=r["distinct"], done=len(done))


# --------------------------------------------------------------- findings
def known_findings(prop):
    """known: lines of KNOWN_FINDINGS.txt as (clause, scenario-substring, text)."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) clause=(\S+) scenario=(\S+) (.*)", line)
            if m and m[1] == prop:
                out.append((m[2], m[3], m[4].strip()))
    return out


def digest(*objs):
    """Bitwise digest of nested results."""
    h = hashlib.sha1()

    def up(o):
        if isinstance(o, np.ndarray):
            o = np.ascontiguousarray(o)
            h.update(str((o.dtype.str, o.shape)).encode())
            if o.dtype == object:
                for x in o.ravel():
                    up(x)
            else:
                h.update(o.tobytes())
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                up(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"[%d" % len(o))
            for x in o:
                up(x)
        elif isinstance(o, (float, int, np.number, bool, np.bool_)):
            h.update(repr(float(o)).encode())
        else:
            h.update(repr(o).encode())
    up(objs)
    return h.hexdigest()
