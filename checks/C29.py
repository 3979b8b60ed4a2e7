"""Data generating processes and variable makers."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from scen import *
import contextlib, io


def said(f, *a, **k):
    b = io.StringIO()

    def go():
        with contextlib.redirect_stdout(b):
            return f(*a, **k)
    r, exc = call(go)
    return r, exc, bool(b.getvalue().strip())


NEEDS = {"errproc": "uw", "ols": "ux", "probit": "ux", "heterror": "ux", "slx": "uxg", "sperror": "uxw", "lag": "uxw", "lagerr": "uxw", "mess": "uxw"}


def dgp(c, i, g, rng):
    import spreg
    n = int(rng.integers(9, 20))
    m = lambda k: n + 1 if g["bad"] == k and i % 2 else n - 1 if g["bad"] == k else n
    w, W = make_w(g["kind"], m("w"), rng, ids=None if i % 2 else ["r%02d" % v for v in rng.permutation(m("w"))], transform="r")
    u = np.round(rng.normal(size=(m("u"), 1)) * 2, 2)
    xb = np.round(rng.normal(size=(m("xb"), 1)) * 3 + 1, 2)
    if g["fn"] == "heterror":
        xb = np.abs(xb)
    wxg = np.round(rng.normal(size=(m("wxg"), 1)), 2)
    rho, lam = float(g["rho"]), 0.3 if g["lam"] == "default" else float(g["lam"])
    need = NEEDS.get(g["fn"], "uxgw")
    a = [{"u": u, "x": xb, "g": wxg, "w": w}[k] for k in need]
    kw = {}
    if g["fn"] in ("lag", "spdurbin", "lagerr", "gns", "mess"):
        kw["rho"] = rho
    if g["fn"] in ("errproc", "sperror", "slxerror", "lagerr", "gns"):
        kw.update(lam=lam, model=g["model"])
        if g["lam"] == "default":
            kw.pop("lam"), kw.pop("rho", None)
            lam, rho = (.2, .5) if g["fn"] in ("lagerr", "gns") else (.5, rho)
    if g["fn"] in ("errproc", "sperror", "slxerror", "lag", "spdurbin", "lagerr", "gns"):
        kw["imethod"] = g["inv"]
    if g["ybin"]:
        kw["ybin"] = True
    k0 = [v.copy() if isinstance(v, np.ndarray) else None for v in a]
    f = getattr(spreg, "make_heterror" if g["fn"] == "heterror" else "dgp_" + g["fn"])
    r, exc, s = said(f, *a, **kw)
    kept = all(b is None or np.array_equal(v, b) for v, b in zip(a, k0)) and np.array_equal(w.sparse.toarray(), W)
    return {"op": "dgp", "cfg": g, "exc": exc, "in": {"u": enc(u), "xb": enc(xb), "wxg": enc(wxg), "W": enc(W), "rho": enc(rho), "lam": enc(lam)},
            "obs": {} if exc else {"y": "none" if r is None else enc(np.asarray(r)), "said": s, "kept": bool(kept)}}


def make(c, i, g, rng):
    import spreg
    n = int(rng.integers(9, 20))
    k = g["k"]
    x = np.round(rng.normal(size=(n, k)) * 2, 2)
    e = {"op": "make", "cfg": g, "exc": None, "in": {"n": n}, "obs": {}}
    fn, bad = g["fn"], g["bad"]
    if fn == "wx":
        w, W = make_w(g["kind"], n + bad, rng, ids=None if i % 2 else ["r%02d" % v for v in rng.permutation(n + bad)], transform="r" if i % 3 else "o")
        e["in"].update(x=enc(x), W=enc(W))
        r = said(spreg.make_wx, x, w, *([g["o"]] if g["o"] > 1 or i % 2 else []))
    elif fn in ("xb", "wxg"):
        b = [round(float(v), 2) for v in rng.normal(size=k + (fn == "xb") + (bad and [1, -1][i % 2]))]
        e["in"].update(x=enc(x), b=enc(np.array(b).reshape(-1, 1)) if b else "none")
        r = said(getattr(spreg, "make_" + fn), x, b)
    elif fn == "bin":
        x = x[:, :1]
        e["in"]["x"] = enc(x)
        r = said(spreg.make_bin, x)
    else:
        lo, hi = round(float(rng.uniform(.5, 2)), 2), round(float(rng.uniform(3, 6)), 2)
        if fn == "vgroup":
            sizes = [int(v) for v in rng.integers(1, 5, size=k + 1)]
            vs = [float(v) for v in np.round(rng.uniform(1, 4, size=k + 1), 2)]
            n = sum(sizes)
            e["in"].update(n=n, sizes=enc(np.array(sizes)), vars=enc(np.array(vs)))
            if bad:
                n, vs = (n + 1, vs) if i % 2 else (n, vs[:-1])
            r = said(spreg.make_vmult, n, "group", vlow=sizes, vup=vs)
        elif fn == "vuniform":
            e["in"].update(lo=enc(lo), hi=enc(hi))
            r = said(spreg.make_vmult, n, "uniform", vlow=[lo], vup=[hi], **({} if bad else {"rng": np.random.default_rng(5)}))
        else:
            if i % 2:
                r = said(spreg.make_vmult, n, **({"method": "bogus"} if fn == "vbogus" else {}))
                lo, hi = 1, 4
            else:
                r = said(spreg.make_vmult, n, "bogus" if fn == "vbogus" else "linear", [lo], [hi])
            e["in"].update(lo=enc(lo), hi=enc(hi))
    r, e["exc"], s = r
    if not e["exc"]:
        e["obs"] = {"y": "none" if r is None else enc(np.asarray(r)), "said": s}
    return e


def draw(c, i, g, rng):
    import spreg
    n = 20000
    fn = g["fn"]
    e = {"op": "draw", "cfg": g, "exc": None, "obs": {}}
    k = 1 + i % 3 if fn in ("x-uniform", "x-normal", "x-bogus", "x-mismatch") else 2 if fn == "x-bivnormal" else 3 if fn == "x-tri" else 1
    mu = [[0, 1.5, -2][(g["mu"] + j) % 3] for j in range(k)]
    var = [[1, 4, .25][(g["var"] + j) % 3] for j in range(k)]
    sd = np.sqrt(var)
    if fn.startswith("x-"):
        kind = {"x-tri": "bivnormal", "x-mismatch": "normal"}.get(fn, fn[2:])
        if fn == "x-mismatch":
            var = var + [1]
        f = lambda m: spreg.make_x(np.random.default_rng(1000 + i), m, mu=mu, varu=var, **dict({} if kind == "uniform" and i % 2 else {"method": kind}, **({"cor": float(g["cor"])} if kind == "bivnormal" else {})))
    elif mu[0] == 0 and var[0] == 1 and fn == "normal":
        f = lambda m: spreg.make_error(np.random.default_rng(1000 + i), m)
    else:
        f = lambda m: spreg.make_error(np.random.default_rng(1000 + i), m, mu=mu[0], varu=var[0], method=fn)
    z = np.array([-2, -1, -.4, 0, .3, 1, 1.7])
    pts = []
    for j in range(k):
        if fn == "lognormal":
            pts.append(np.exp(mu[j] + sd[j] * z))
        elif fn == "x-uniform":
            pts.append(np.array([0.0, .2, .5, .9, 1.0]) * np.sqrt(12 * var[j]))
        elif fn == "cauchy":
            pts.append(np.array([0, 1, -1, np.sqrt(3), -1 / np.sqrt(3)]))
        else:
            pts.append(mu[j] + sd[j] * z)
    e["in"] = {"n": n, "k": k, "mu": enc(np.array(mu, float)), "var": enc(np.array(var[:k], float)), "cor": enc(float(g["cor"])), "pts": [enc(p) for p in pts],
               "theta": enc(np.array([.5, .75, .25, 5 / 6, 1 / 3]))}
    r, e["exc"], s = said(f, n)
    if e["exc"]:
        return e
    if r is None:
        e["obs"] = {"y": "none"}
        return e
    small = f(5)
    e["obs"] = {"y": "data", "rows": r.shape[0], "cols": r.shape[1], "small": list(small.shape), "again": bool(np.array_equal(r, f(n))),
                "distinct": bool(k < 2 or not np.allclose(r[:, 0] / r[0, 0], r[:, 1] / r[0, 1])),
                "share": [enc(np.array([float((r[:, j] <= p * (1 + 1e-12)).mean()) for p in pts[j]])) for j in range(r.shape[1])]}
    if k == 2:
        e["obs"]["cor"] = enc(float(np.corrcoef(r.T)[0, 1]))
    return e


def one(c, i, g):
    return {"dgp": dgp, "make": make, "draw": draw}[g["op"]](c, i, g, c.sub(29000 + i))


def body(c):
    cfgs = c.generate("M29", invariants=["OnlyAgreeing"])
    out = []
    by = {}
    for g in cfgs:
        by.setdefault((g["op"], g["fn"]), []).append(g)
    for k in sorted(by):
        if len(by[k]) < 12:
            by[k] *= -(-12 // len(by[k]))
        out += pick(c, by[k], 70 if QUICK else 700)
    c.validate("C29", pmap(lambda j: one(c, *j), list(enumerate(out))), timeout=840)


main("C29", body)
