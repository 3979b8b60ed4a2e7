"""Lazy attributes and sparse helpers."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from catalog import *
import scipy.sparse as sps

GIVEN = ["GM_Lag", "ML_Lag", "ML_Error", "white", "PanelFE"]
YONLY = ["GM_Error", "GM_Error_Het", "GM_Error_Hom", "GM_Combo", "GM_Combo_Het"]


def fitted(c, i, cls):
    import spreg
    s = scen(c, 8000 + i, {"kx": 2, "ne": 1, "nq": 2}, n=18 + i % 4, wt="ro"[i % 2])
    y, x, w = s["y"], s["x"], s["w"]
    d = {"W": enc(s["W"])}
    if cls == "ls":
        f = [lambda: spreg.OLS(y, x, w=w, spat_diag=bool(i % 2), nonspat_diag=bool(i % 3)), lambda: spreg.ols.BaseOLS(y, np.hstack([np.ones(y.shape), x]))][(i // 2) % 2]
    elif cls == "iv":
        f = [lambda: spreg.TSLS(y, x, s["yend"], s["q"], w=w, spat_diag=bool(i % 2)), lambda: spreg.twosls.BaseTSLS(y, np.hstack([np.ones(y.shape), x]), s["yend"], q=s["q"])][(i // 2) % 2]
    elif cls == "sp":
        f = lambda: spreg.OLS(y, x)
    else:
        e = (YONLY if cls == "y" else GIVEN)[i % 5]
        x2 = c.sub(8050 + i).normal(size=x.shape)
        f = {"GM_Lag": lambda: spreg.GM_Lag(y, x, w=w, robust="white"), "ML_Lag": lambda: spreg.ML_Lag(y, x, w=w), "ML_Error": lambda: spreg.ML_Error(y, x, w=w),
             **{k: (lambda k=k: getattr(spreg, k)(y, x, w=w)) for k in YONLY}, "white": lambda: spreg.OLS(y, x, robust="white"),
             "PanelFE": lambda: spreg.PanelFE(np.vstack([y, y[::-1] + x2[:, :1]]), np.vstack([x, x2]), w)}[e]
    return f, s, d


def history(c, i, cls, hist):
    from spreg.diagnostics_sp import spDcache
    f, s, d = fitted(c, i, cls)
    base, exc = call(f)
    e = {"op": "history", "cfg": {"cls": cls, "i": i, "hist": [o["k"][0] + ":" + o["p"] for o in hist]}, "in": d, "exc": exc, "obs": {}}
    if exc:
        return None if "power expansion" in exc["msg"] else e
    k = base.k
    d.update(u=enc(base.u), y=enc(np.asarray(base.y, float)), n=int(base.n), k=int(k))
    if cls == "ls":
        d.update(sig2=enc(num(base.sig2)), xtxi=enc(base.xtxi))
    elif cls == "iv":
        d.update(sig2=enc(num(base.sig2)), varb=enc(base.varb), zthhthi=enc(base.zthhthi))
    elif cls == "sp":
        d.update(x=enc(base.x), xtxi=enc(base.xtxi), predy=enc(base.predy))
    elif cls == "given":
        d.update(vm=enc(np.asarray(base.vm, float)))
    obj = f()
    tgt = spDcache(obj, s["w"]) if cls == "sp" else obj
    rng = c.sub(8100 + i)
    ops = []

    def go():
        for o in hist:
            t = obj if o["p"] == "sig2n" else tgt
            if o["k"] == "set":
                v = float(np.round(rng.uniform(.5, 9), 3))
                if o["p"] == "vm":
                    v = np.round(rng.normal(size=(k, k)), 3)
                setattr(t, o["p"], v)
            else:
                v = getattr(t, o["p"])
                if o["p"] == "AB":
                    v = np.hstack(v)
                v = np.asarray(v.toarray() if hasattr(v, "toarray") else v, float)
                v = v.copy() if v.ndim else float(v)
            ops.append({"k": o["k"], "p": o["p"], "v": enc(v if isinstance(v, np.ndarray) else np.array([[v]]))})
    _, e["exc"] = call(go)
    e["obs"]["ops"] = ops
    return e


def helper(c, i, g):
    import spreg.sputils as SP
    rng = c.sub(8200 + i)
    n, m = {"tall": (7, 3), "square": (5, 5), "wide": (3, 8), "vector": (6, 1)}[g["shape"]]
    f = g["f"]
    z = lambda r, q: np.round(rng.normal(size=(r, q)) * 3, 2) * (rng.random((r, q)) < [.4, .9][i % 2])
    a = z(n, m)
    b = {"spdot": lambda: z(m, 4), "spmultiply": lambda: z(n, m), "sphstack": lambda: z(n, 2), "spbroadcast": lambda: z(n, 1)}.get(f, lambda: None)()
    if f in ("splogdet", "spinv"):
        p = rng.permutation(n)
        a = (a * .4 + np.diag(rng.uniform(4, 9, size=n)))
        if np.linalg.det(a) <= 0:
            a = np.diag(rng.uniform(1, 3, size=n)) + .1
    if f == "spmin" or f == "spmax":
        a = a + (5 if i % 3 == 0 else -5 if i % 3 == 1 else 0)
    if f == "spisfinite" and i % 2:
        a[tuple(rng.integers(n, size=2))] = [np.nan, np.inf, -np.inf][(i // 2) % 3]
    mk = {"dense": np.array, "csr": sps.csr_matrix, "csc": sps.csc_matrix}
    e = {"op": "helper", "cfg": dict(g), "in": {}, "exc": None, "obs": {}}
    if f == "spisfinite":
        e["in"] = {"finite": bool(np.isfinite(a).all())}
    else:
        e["in"] = {"a": enc(a)}
    args = [mk[g["a"]](a)]
    if b is not None:
        e["in"]["b"] = enc(b)
        bb = mk[g["b"]](b)
        args += [bb, bool(g["out"])]
    if f == "spfill_diagonal":
        e["in"]["val"] = enc(np.array([[2.5]]))
        args.append(2.5)
    r, e["exc"] = call(getattr(SP, f), *args)
    if e["exc"] is None:
        if f == "spisfinite":
            e["obs"]["finite"] = bool(r)
        else:
            v = np.asarray(r.toarray() if hasattr(r, "toarray") else r, float)
            e["obs"] = {"v": enc(v if v.ndim == 2 else v.reshape(1, -1)), "storage": type(r).__name__}
    return e


def sparse_x(c, i, est, regi, slx, robust):
    import spreg
    g = dict(cst=0, slx=slx, mask=[], wl=1, lagq=1, robust=robust, one=0, vk="all", sep=0, tex=0, est=est, regi=regi,
             ne=int(est in ("TSLS", "GM_Endog_Error", "GM_Endog_Error_Het", "GM_Endog_Error_Hom")), form="none", nr=2 * regi)
    name, kw, s = build(c, i, g)
    kw["y"] = np.asarray(kw["y"]).reshape(-1, 1)
    r, exc0 = call(getattr(spreg, name), **kw)
    if r is None:
        return None
    kw["x"] = sps.csr_matrix(kw["x"])
    q, exc = call(getattr(spreg, name), **kw)
    e = {"op": "sparse", "cfg": {"est": est, "regi": regi, "slx": slx, "robust": robust, "opt": int("Error" in est or "Combo" in est), "i": i}, "in": {}, "exc": exc, "obs": {}}
    if q is not None:
        e["obs"] = {"betas": enc(q.betas), "betas0": enc(r.betas), "vm": enc(np.asarray(q.vm, float)), "vm0": enc(np.asarray(r.vm, float)), "u": enc(q.u), "u0": enc(r.u)}
    return e


def body(c):
    cfgs = c.generate("M31", invariants=["OrderFree", "Stable", "Obeyed"], constants="CONSTANT Len0 = 3")
    cfgs.sort(key=lambda g: json.dumps(g, sort_keys=True))
    by = {}
    for g in cfgs:
        if g["op"] == "history":
            by.setdefault(g["cls"], []).append(g["hist"])
    hs = []
    for k in sorted(by):
        rng = c.sub(8300 + len(k))
        for j in range(220 if QUICK else 900):       # two histories of the model in a row
            a, b = rng.integers(len(by[k]), size=2)
            hs.append((k, by[k][a] + by[k][b]))
    helpers = [g for g in cfgs if g["op"] == "helper"] * (2 if QUICK else 8)
    ests = ["OLS", "GM_Error", "GM_Error_Het", "GM_Error_Hom", "ML_Error", "ML_Lag", "Probit", "TSLS", "GM_Endog_Error", "GM_Endog_Error_Het", "GM_Endog_Error_Hom", "GM_Lag", "GM_Combo", "GM_Combo_Het", "GM_Combo_Hom"]
    sx = [(e, r, s, rb) for e in ests for r in (0, 1) for s in (0, 1) for rb in (("none", "white", "hac") if e in ("OLS", "TSLS", "GM_Lag") else ("none",)) if not (r and e == "Probit")] * (1 if QUICK else 5)
    ev = pmap(lambda j: history(c, j[0], *j[1]), list(enumerate(hs)))
    ev += pmap(lambda j: helper(c, *j), list(enumerate(helpers)))
    ev += pmap(lambda j: sparse_x(c, j[0], *j[1]), list(enumerate(sx)))
    c.validate("C31", [e for e in ev if e], timeout=840)


main("C31", body)
