"""Shared machinery of the checks: data, recording of the real API, TLC runs,
verdicts and evidence.  Every check is `checks/<id>.py`, see harness/README."""
import contextlib
import io
import json
import os
import random
import re
import signal
import subprocess
import sys
import time
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"

_ENV = {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONWARNINGS": "ignore",
}


def reexec():
    """Run under the repository's interpreter with a fixed environment."""
    if os.environ.get("VERIF_CHILD") != "1":
        env = dict(os.environ, VERIF_CHILD="1", **_ENV)
        for k in ("PYTHONPATH", "PYTHONHOME"):
            env.pop(k, None)
        os.execve(PYTHON, [PYTHON] + sys.argv, env)


reexec()
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(VERIF, "harness"))
warnings.simplefilter("ignore")
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
import scipy.sparse as sp  # noqa: E402

np.seterr(all="ignore")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
QUICK = TIER != "thorough"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """A failure of the verification machinery itself (exit 2)."""


# ------------------------------------------------------------------ building
def build_java():
    out = os.path.join(VERIF, "build")
    src = [os.path.join(VERIF, "java", f) for f in ("Guard.java", "Mat.java")]
    cls = os.path.join(out, "Mat.class")
    if os.path.exists(cls) and os.path.exists(os.path.join(out, "Guard.class")) and os.path.getmtime(cls) >= max(map(os.path.getmtime, src)):
        return out
    os.makedirs(out, exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp, *src], capture_output=True, text=True)
    if r.returncode:
        raise Machinery("javac: " + r.stderr)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(out, f))
    os.rmdir(tmp)
    os.utime(cls)
    return out


# ---------------------------------------------------------------- TLC driver
class Scratch:
    def __init__(self, pid):
        import tempfile
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % pid)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)


def tlc(module, cfg, scratch, env=None, workers=8, timeout=800, args=()):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    cls = build_java()
    tag = re.sub(r"\W", "_", module) + "_%d" % (int(time.time() * 1e6) % 10**9)
    cfgp = scratch.path(tag + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    meta = scratch.path("meta_" + tag)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g", "-cp", cls + ":" + JARS,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:Guard", "-DTLA-Library=" + os.path.join(VERIF, "spec"), "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-config", cfgp, "-nowarning", *args,
           os.path.join(VERIF, "spec", module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=scratch.dir)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on " + module)
    out = "\n".join(q for q in (r.stdout + r.stderr).split("\n") if not q.startswith(("Loading ", "Parsing ", "Semantic ", "Computed ")))
    for q in out.split("\n"):
        if q.startswith("UNREADABLE"):
            print("  note: " + q[:200])
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    return {"rc": r.returncode, "out": out, "wall": time.time() - t,
            "states": int(m.group(2).replace(",", "")) if m else 0,
            "transitions": int(m.group(1).replace(",", "")) if m else 0}


def generate(module, scratch, invariants=(), properties=(), constants="", timeout=600,
             init="MInit", nxt="MNext"):
    """Model-check the abstract part of a specification and return the
    behaviours/configurations it asks to be replayed (JSON)."""
    outp = scratch.path(module + "_gen.json")
    cfg = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n%s\n" % (init, nxt, constants)
    for i in invariants:
        cfg += "INVARIANT %s\n" % i
    for p in properties:
        cfg += "PROPERTY %s\n" % p
    cfg += "POSTCONDITION Emit\n"
    r = tlc(module, cfg, scratch, env={"GEN_OUT": outp, "TRACE": "", "VERIF_TIER": TIER}, timeout=timeout)
    if r["rc"] != 0 or not os.path.exists(outp):
        raise Machinery("specification %s does not check:\n%s" % (module, r["out"][-6000:]))
    with open(outp) as f:
        return json.load(f), r


_V = re.compile(r'<<"VERDICT", (\d+), "([^"]*)", (.*?)>>\s*$')


def validate(module, events, scratch, timeout=800, constants="", workers=8):
    """Trace validation: TLC consumes every recorded event; returns per event
    the set of violated clauses."""
    tp = scratch.path("trace_%s_%d.ndjson" % (module, len(events)))
    with open(tp, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    if os.environ.get("VERIF_KEEP"):
        import shutil
        shutil.copy(tp, os.environ["VERIF_KEEP"])
    cfg = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n" + constants
    r = tlc(module, cfg, scratch, env={"TRACE": tp, "GEN_OUT": ""}, timeout=timeout, workers=workers)
    verdict = {}
    txt = re.sub(r"\n\s+", " ", r["out"])     # TLC wraps long values
    for m in re.finditer(r'<<\s*"VERDICT",\s*(\d+),\s*(\{[^}]*\})\s*>>', txt):
        verdict[int(m.group(1))] = sorted(re.findall(r'"([^"]*)"', m.group(2)))
    missing = [i for i in range(1, len(events) + 1) if i not in verdict]
    if missing:
        raise Machinery("TLC gave no verdict for %d of %d events of %s (first: %s)\n%s" % (
            len(missing), len(events), module, json.dumps(events[missing[0] - 1])[:300], r["out"][-5000:]))
    return [verdict[i] for i in range(1, len(events) + 1)], r


# ------------------------------------------------------------------ encoding
def enc(v, depth=0):
    """Python value -> JSON understood by Mat!LoadTrace."""
    if v is None:
        return "null"
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        v = int(v)
        return v if abs(v) < 10**9 else {"$m": [[str(v)]]}
    if isinstance(v, (float, np.floating)):
        return {"$m": [[repr(float(v))]]} if np.isfinite(v) else "nonfinite"
    if isinstance(v, str):
        return v
    if isinstance(v, complex):
        return "complex"
    if sp.issparse(v):
        v = v.toarray()
    if isinstance(v, (pd.DataFrame, pd.Series)):
        v = v.to_numpy()
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            try:
                v = v.astype(float)
            except Exception:
                return "object"
        if v.dtype.kind in "US":
            return [str(i) for i in v.ravel()]
        if v.dtype.kind == "b":
            v = v.astype(int)
        if v.dtype.kind == "c":
            return "complex"
        if v.dtype.kind not in "fiu":
            return "object"
        if v.ndim == 0:
            return enc(v.item())
        if v.ndim == 1:
            v = v.reshape(-1, 1)
        if v.ndim != 2 or v.size == 0:
            return "shape" + "x".join(map(str, v.shape))
        if not np.isfinite(v).all():
            return "nonfinite"
        return {"$m": [[repr(x) if isinstance(x, float) else str(x) for x in row] for row in v.tolist()]}
    if isinstance(v, tuple) and v and all(np.isscalar(i) or (isinstance(i, np.ndarray) and i.size == 1) for i in v) \
            and not any(isinstance(i, str) for i in v):
        return enc(np.array([float(np.asarray(i).ravel()[0]) for i in v]))    # e.g. (statistic, p-value)
    if isinstance(v, (list, tuple)):
        return [enc(i, depth + 1) for i in v]
    if isinstance(v, (set, frozenset)):
        return sorted((str(i) for i in v))
    if isinstance(v, dict):
        return {str(k): enc(x, depth + 1) for k, x in v.items()}
    return "object:" + type(v).__name__


def mat(rows):
    """2-D encoding of a list of lists / tuples (e.g. t_stat)."""
    try:
        a = np.array([[float(x) for x in r] for r in rows], dtype=float)
    except Exception:
        return "absent"
    return enc(a)


def get(reg, name):
    try:
        v = getattr(reg, name)
    except Exception:
        return "absent"
    return v


def table(reg, attr="output"):
    """The output data frame as a record of columns."""
    df = get(reg, attr)
    if not isinstance(df, pd.DataFrame):
        return "absent"
    out = {}
    for c in df.columns:
        col = df[c]
        if c in ("var_names", "var_type", "regime", "equation"):
            out[c] = [str(i) for i in col.tolist()]
        else:
            vals = []
            for i in col.tolist():
                try:
                    vals.append(float(i) if i is not None else float("nan"))
                except Exception:
                    vals.append(float("nan"))
            if len(vals) and not np.isfinite(vals).all():
                # keep the finite ones, mark the others
                out[c + "_nan"] = [int(not np.isfinite(v)) for v in vals]
                vals = [v if np.isfinite(v) else 0.0 for v in vals]
            out[c] = enc(np.array(vals))
    return out


ZT = ("t_stat", "z_stat")


def snap(reg, attrs):
    o = {}
    for a in attrs:
        v = get(reg, a)
        if a in ZT and not isinstance(v, str):
            o[a] = mat(v)
        elif a in ("output", "output_chow"):
            o[a] = table(reg, a)
        elif isinstance(v, str) and v == "absent":
            o[a] = "absent"
        else:
            try:
                o[a] = enc(v)
            except Exception as ex:
                o[a] = "unencodable:" + type(ex).__name__
    return o


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def where(e):
    """innermost frame inside spreg, for reports"""
    import traceback
    fr = [f for f in traceback.extract_tb(e.__traceback__) if "/spreg/" in f.filename]
    return "%s:%d" % (os.path.basename(fr[-1].filename), fr[-1].lineno) if fr else ""


def call(f, *a, **k):
    """(result, None) or (None, {"type","msg"}); prints are swallowed."""
    limit = k.pop("_limit", 120)
    def late(*_):
        raise TimeoutError("call did not return within %ds" % limit)
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(limit)
    try:
        with quiet():
            return f(*a, **k), None
    except (Exception, SystemExit) as e:  # noqa: BLE001
        return None, {"type": type(e).__name__, "msg": str(e)[:200], "at": where(e)}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


# ------------------------------------------------------------------ weights
def make_w(kind, n, rng, ids=None, transform="o", islands=0):
    """A libpysal W whose row order is `ids` (default 0..n-1) and its dense
    matrix.  kinds: rook (lattice-ish, symmetric), knn (asymmetric binary),
    gen (asymmetric, general positive weights), ring."""
    from libpysal.weights import W
    ids = list(range(n)) if ids is None else list(ids)
    a = np.zeros((n, n))
    if kind == "rook":
        c = int(np.ceil(np.sqrt(n)))
        for i in range(n):
            r, q = divmod(i, c)
            for d in ((0, 1), (1, 0)):
                r2, q2 = r + d[0], q + d[1]
                j = r2 * c + q2
                if q2 < c and j < n:
                    a[i, j] = a[j, i] = 1.0
        p = rng.permutation(n)
        a = a[np.ix_(p, p)]
    elif kind == "ring":
        for i in range(n):
            for d in (1, 2):
                a[i, (i + d) % n] = a[(i + d) % n, i] = 1.0
    elif kind == "knn":
        xy = rng.random((n, 2))
        d = ((xy[:, None, :] - xy[None]) ** 2).sum(2)
        np.fill_diagonal(d, 99)
        for i in range(n):
            a[i, np.argsort(d[i], kind="stable")[:3]] = 1.0
    elif kind == "gen":
        for i in range(n):
            js = [j for j in rng.choice(n, size=5, replace=False) if j != i][:int(rng.integers(2, 5))]
            for j in js:
                a[i, j] = float(rng.integers(1, 9)) / 4.0
        for i in range(n):      # keep it connected
            a[i, (i + 1) % n] = a[i, (i + 1) % n] or 0.5
    else:
        raise ValueError(kind)
    for i in range(islands):
        a[i, :] = 0.0
        a[:, i] = 0.0
    if transform == "r":
        s = a.sum(1, keepdims=True)
        a = np.divide(a, s, out=np.zeros_like(a), where=s > 0)
        base = np.where(a > 0, 1.0, 0.0)
    nb = {ids[i]: [ids[j] for j in range(n) if a[i, j] != 0] for i in range(n)}
    wt = {ids[i]: [float(a[i, j]) for j in range(n) if a[i, j] != 0] for i in range(n)}
    with quiet():
        w = W(nb, wt, id_order=ids, silence_warnings=True)
    return w, w.sparse.toarray().astype(float)


def make_kernel(n, rng):
    """A Kernel weights object with unit diagonal, and its dense matrix."""
    from libpysal.weights import Kernel
    pts = rng.random((n, 2)) * 10
    with quiet():
        k = Kernel(pts, k=5, function="triangular", fixed=False, diagonal=True)
    return k, k.sparse.toarray().astype(float)


# --------------------------------------------------------------------- data
def xdata(n, k, rng, style="int"):
    if style == "int":
        x = rng.integers(-9, 10, size=(n, k)).astype(float)
    elif style == "intdtype":
        x = rng.integers(-9, 10, size=(n, k))
    elif style == "pos":
        x = rng.integers(1, 40, size=(n, k)) / 4.0
    else:
        x = np.round(rng.normal(size=(n, k)) * 3 + 1, 3)
    # no accidental constants
    for j in range(k):
        if np.ptp(x[:, j]) == 0:
            x[0, j] += 1
    return x


# ------------------------------------------------------------------ verdicts
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


class Check:
    """Collects events of one property, validates, reports."""

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.scratch = Scratch(pid)
        self.rng = np.random.default_rng([SEED, int(re.sub(r"\D", "", pid))])
        self.pyrng = random.Random("%s-%s" % (SEED, pid))
        self.states = self.transitions = self.traces = 0
        self.violations = []     # (clauses, event)
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.clauses = 0

    def sub(self, i):
        """independent generator for case i"""
        return np.random.default_rng([SEED, int(re.sub(r"\D", "", self.pid)), 7919, int(i)])

    def generate(self, module, **k):
        data, r = generate(module, self.scratch, **k)
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.extra.setdefault("model_runs", []).append(
            {"module": module, "states": r["states"], "transitions": r["transitions"], "wall_s": round(r["wall"], 2)})
        return data

    def validate(self, module, events, **k):
        if not events:
            raise Machinery("no events for " + module)
        v, r = validate(module, events, self.scratch, **k)
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.traces += len(events)
        self.extra.setdefault("trace_runs", []).append(
            {"module": module, "events": len(events), "states": r["states"], "wall_s": round(r["wall"], 2)})
        for e, bad in zip(events, v):
            if bad:
                self.violations.append((bad, e))
        for e in events[:2]:
            self.samples.append({"cfg": e.get("cfg", {}), "op": e.get("op", "")})
        return v

    def finish(self):
        pid = self.pid
        known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "open"]
        seen, fresh = {}, []
        for u in FAILED:
            fresh.append((["results-readable"], {"op": "observation", "cfg": {"item": u.item}, "exc": {"type": "", "msg": u.msg}}))
        for bad, e in self.violations:
            rest = []
            for c in bad:
                hit = None
                for k in known:
                    if matches(k, c, e):
                        hit = k
                        break
                if hit is None:
                    rest.append(c)
                else:
                    seen[hit["id"]] = hit
            if rest:
                fresh.append((rest, e))
        for k in known:
            print("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"], "" if k["id"] in seen else " (not met in this run)"))
        ev = {
            "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
            "level": self.level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "samples": self.samples[:6], **self.extra},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rc = 0
        if fresh and os.environ.get("VERIF_DUMP"):     # every violating event, for debugging
            with open(os.environ["VERIF_DUMP"], "w") as f:
                json.dump([{"clauses": c, "event": e} for c, e in fresh], f)
        if fresh:
            rep = os.path.join(VERIF, "evidence", "replay_%s.json" % pid)
            first = {}
            for c, e in fresh:
                first.setdefault((tuple(c), json.dumps((e.get("exc") or {}).get("msg", ""))[:60]), (c, e))
            with open(rep, "w") as f:
                json.dump([{"clauses": c, "event": e} for c, e in list(first.values())[:10]], f, indent=1)
            cnt = {}
            for c, e in fresh:
                for q in c:
                    cnt[q] = cnt.get(q, 0) + 1
            for q in sorted(cnt, key=lambda q: -cnt[q])[:20]:
                print("  violated clause %-40s in %d event(s)" % (q, cnt[q]))
            shown = {}
            for c, e in fresh:
                shown.setdefault((tuple(c), json.dumps((e.get("exc") or {}).get("msg", ""))[:60]), (c, e))
            for c, e in list(shown.values())[:8]:
                print("  e.g. %s cfg=%s exc=%s" % (c[:6], json.dumps(e.get("cfg"))[:400], e.get("exc")))
            print("VIOLATION property=%s replay=%s" % (pid, rep))
            rc = 1
        else:
            print("OK property=%s events=%d states=%d wall=%.1fs" % (pid, self.traces, self.states, time.time() - self.t0))
        self.scratch.close()
        sys.stdout.flush()
        return rc


def matches(k, clause, e):
    if not re.fullmatch(k["clause"], clause):
        return False
    for key, want in k.get("cfg", {}).items():
        got = e.get("cfg", {}).get(key)
        if isinstance(want, list):
            if got not in want:
                return False
        elif got != want:
            return False
    return True


def main(pid, body, level="model_checking"):
    """body(check) records and validates."""
    c = Check(pid, level)
    try:
        import_spreg()
        body(c)
        rc = c.finish()
    except Machinery as e:
        print("MACHINERY-ERROR property=%s %s" % (pid, e))
        c.scratch.close()
        rc = 2
    sys.exit(rc)


def import_spreg():
    with quiet():
        import spreg
    p = os.path.dirname(os.path.abspath(spreg.__file__))
    if p != os.path.join(REPO, "spreg"):
        raise Machinery("spreg imported from " + p)
    return spreg


def pick(c, seq, limit):
    """All of seq, or a seeded sample of `limit` keeping order, chosen greedily so that
    rare values and rare pairs of values of the fields are covered first."""
    seq = list(seq)
    if limit is None or len(seq) <= limit:
        return seq
    if not all(isinstance(g, dict) for g in seq):
        return [seq[i] for i in sorted(c.pyrng.sample(range(len(seq)), limit))]
    order = c.pyrng.sample(range(len(seq)), len(seq))
    ids, atoms = {}, {}
    def pairs(i):
        if i not in atoms:
            v = [k + "=" + json.dumps(x, sort_keys=True) for k, x in sorted(seq[i].items())]
            v = [ids.setdefault(x, len(ids)) for x in v]
            atoms[i] = v, [p << 20 | q for j, p in enumerate(v) for q in v[j + 1:]]
        return atoms[i]
    order = order[:max(limit, 15000)]
    seen, out, pool, at, width = {}, [], [], 0, max(8, min(40, 40000 // limit))
    step = -(-len(order) // limit)
    while len(out) < limit:
        pool += order[at:at + step]
        at += step
        if not pool:
            break
        worth = {}
        for i in pool:
            v, w = pairs(i)
            worth[i] = sum(.5 ** seen.get(x, 0) for x in w) + sum(1 / (1 + seen.get(x, 0)) for x in v)
        pool.sort(key=lambda i: -worth[i])
        b = pool[0]
        pool = pool[1:width + 1]
        for x in atoms[b][0] + atoms[b][1]:
            seen[x] = seen.get(x, 0) + 1
        out.append(b)
    return [seq[i] for i in sorted(out)]


FAILED = []       # observations that could not be made (results without the promised shape)


def pmap(f, items, procs=8):
    """Deterministic parallel map in forked workers.  A worker that cannot read the
    results it was given reports a failed observation, which is a violation."""
    import multiprocessing as mp
    items = list(items)
    global _F, _IT
    _F, _IT = f, items
    if procs <= 1 or len(items) < 4:
        out = [_call(i) for i in range(len(items))]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(procs) as p:
            out = p.map(_call, range(len(items)), chunksize=max(1, len(items) // (procs * 4)))
    FAILED.extend(o for o in out if isinstance(o, Unobservable))
    return [o for o in out if not isinstance(o, Unobservable)]


class Unobservable:
    def __init__(self, item, msg):
        self.item, self.msg = item, msg


def _call(i):
    try:
        return _F(_IT[i])
    except Machinery:
        raise
    except Exception as e:  # noqa: BLE001
        import traceback
        fr = traceback.extract_tb(e.__traceback__)[-1]
        return Unobservable(str(_IT[i])[:600], "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(fr.filename), fr.lineno))
