"""ML lag and error models with regimes: the optimum, pooled and by regime."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from regi import *
import ml

ATTRS = [a for a in ml.ATTRS if a not in ("output", "cfh_test")] + ["cfh_test", "output"]


def rho_hat(y, X, W):
    from scipy.optimize import minimize_scalar
    n = len(y)
    P = np.eye(n) - X @ np.linalg.pinv(X)
    e0, e1 = P @ y, P @ (W @ y)
    f = lambda r: n / 2 * np.log(((e0 - r * e1) ** 2).sum() / n) - np.linalg.slogdet(np.eye(n) - r * W)[1]
    return minimize_scalar(f, bounds=(-1, 1), method="bounded", options={"xatol": 1e-9}).x


def one(c, i, g):
    import spreg
    from libpysal.weights import W as PW
    lag = g["est"] == "ML_Lag"
    rng = c.sub(700000 + i)
    std = int(rng.integers(0, 2))
    g = dict(g, diag=int(lag and bool(i % 3)), errsep=0 if lag else g["sep"], lagsep=g["sep"] if lag else 0, std=std, robust="none", n_k=0, creg=[], lagq=1, wl=1)
    ks = len(g["vary"]) + 2
    n = int(g["nr"] * (10 + 2 * ks) + i % 5)
    s = reg_scen(c, i, g, n, wkind=["rook", "knn", "gen"][i % 3], rho=[.3, .5, -.3][i % 3], wt="o", noise=3.0)
    g["blockw"] = int(not g["sep"] and i % 3 == 0)
    if g["blockw"]:
        block_weights(s)
    ids = list(s["w"].id_order)
    if std:
        s["w"].transform = "r"
    else:       # spectral radius below one
        A = s["W"]
        A = np.round(A / max(A.sum(0).max(), A.sum(1).max()) * .97, 3)
        with quiet():
            s["w"] = PW({ids[a]: [ids[b] for b in range(n) if A[a, b]] for a in range(n)},
                        {ids[a]: [float(A[a, b]) for b in range(n) if A[a, b]] for a in range(n)}, id_order=ids, silence_warnings=True)
        s["in"]["W0"] = enc(s["w"].sparse.toarray())
    W = s["W"] = s["w"].sparse.toarray()
    s["in"]["W"] = enc(W)
    kw = dict(s["kw"], w=s["w"], method=g["method"] if i % 2 else g["method"].upper(), constant_regi="one" if g["one"] else "many",
              cols2regi="all" if all(g["vary"]) and (i % 2 or g["slx"]) else [bool(b) for b in g["vary"]])
    if g["slx"]:
        kw["slx_lags"] = g["slx"]
        if g["mask"]:
            kw["slx_vars"] = [bool(b) for b in g["mask"]]
    kw["regime_lag_sep" if lag else "regime_err_sep"] = bool(g["sep"])
    if lag:
        kw.update(spat_diag=bool(i % 3), spat_impacts=[None, "simple", "full"][i % 3] if not g["slx"] else None)
    reg, exc = call(getattr(spreg, g["est"] + "_Regimes"), s["y"], s["x"], regimes=s["regimes"], _limit=25, **kw)
    ri = np.array(s["ri"])
    multi = g["sep"] and not g["one"] and all(g["vary"])
    parts = [np.nonzero(ri == r + 1)[0] for r in range(g["nr"])] if multi else [np.arange(n)]
    W0 = np.array([[float(v) for v in r] for r in s["in"]["W0"]["$m"]])
    ws = []
    for ix in parts:
        w = W0[np.ix_(ix, ix)]
        if std:
            t = w.sum(1, keepdims=True)
            w = np.divide(w, t, out=np.zeros_like(w), where=t > 0)
        ws.append(w if multi else W)
    s["in"]["similar"] = [ml.similar(w) for w in ws]
    g["similar"] = max(s["in"]["similar"])
    e = {"op": g["est"] + "_Regimes", "cfg": g, "in": s["in"], "exc": exc, "obs": {}}
    if reg is None:
        if lag:
            x = np.delete(s["x"], [j - 1 for j in g["const"]], axis=1).astype(float)
            X, l = np.hstack([np.ones((n, 1)), x]), x
            m = [bool(b) for b in g["mask"]] or [True] * x.shape[1]
            for _ in range(g["slx"]):
                l = W @ l
                X = np.hstack([X, l[:, m]])
            if not multi:
                D = np.array([[float(a == r + 1) for r in range(g["nr"])] for a in ri])
                X = interact([(X, [1 - g["one"]] + g["vary"])], D)
            e["in"]["rho0"] = [enc(float(rho_hat(s["y"][ix], X[ix], w))) for ix, w in zip(parts, ws)]
        return e
    o = snap(reg, ATTRS)
    o.update(multi_snap(reg, [a for a in ATTRS if a != "output"]))
    e["obs"] = o
    return e


def body(c):
    cfgs = c.generate("M15", invariants=["LayoutHolds", "OneParameterPerFit", "Progress"])
    out = []
    for est in ("ML_Lag", "ML_Error"):
        for sep in (0, 1):
            out += pick(c, [g for g in cfgs if g["est"] == est and g["sep"] == sep], 45 if QUICK else 400)
    c.validate("C15", pmap(lambda j: one(c, *j), list(enumerate(out))), timeout=840)


main("C15", body)
