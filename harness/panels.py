"""Balanced panels: data, layouts, calls."""
from lib import *
import pandas as pd


def wpanel(kind, n, rng, ids):
    if kind != "sym":
        return make_w(kind, n, rng, ids=ids, transform="r")
    from libpysal.weights import W
    _, a = make_w("rook", n, rng)
    b = np.triu(a * rng.uniform(.3, 1, size=a.shape), 1)
    b = b + b.T
    b /= b.sum(1).max()
    ids = list(range(n)) if ids is None else ids
    nb = {ids[i]: [ids[j] for j in range(n) if b[i, j]] for i in range(n)}
    wt = {ids[i]: [float(v) for v in b[i] if v] for i in range(n)}
    w = W(nb, wt, id_order=ids, silence_warnings=True)
    return w, w.sparse.toarray()


def panel(c, i, g, kinds=("rook", "knn", "gen", "sym"), big=0):
    rng = c.sub(20000 + i)
    k, T = g["kx"], g["T"]
    full = 1 + k * (1 + g["slx"])
    n = int(max(9, full + 3, (k + g["cst"]) * T + 1) + i % 4 + big)
    kind = kinds[(i // 2) % len(kinds)]
    w, W = wpanel(kind, n, rng, None if i % 2 else ["u%03d" % v for v in rng.permutation(n)])
    NT = n * T
    lag = g["est"] in ("ML_LagFE", "ML_LagRE", "Panel_FE_Lag", "Panel_RE_Lag", "HausmanLag", "LMtests")
    r = [.4, -.3, 0., .6][i % 4]
    mu = rng.normal(size=n) * [1., .2, 2.][i % 3]
    ints = i % 5 == 3
    X = np.zeros((NT, k))
    for j in range(k):
        X[:, j] = np.tile(rng.normal(size=n), T) + rng.normal(size=NT) * [1, 2.5, .6][(i + j) % 3] + [0, 2][j % 2]
        if ints:
            X[:, j] = np.round(X[:, j] * 4)
    X = np.round(X, 2)
    if g["flat"]:
        t = int(rng.integers(T))
        j = int(rng.integers(k))
        X[t * n:(t + 1) * n, j] = 2
    A = np.linalg.inv(np.eye(n) - r * W)
    e = rng.normal(size=(T, n)) * [1, .4][i % 2]
    y = np.zeros((T, n))
    for t in range(T):
        m = 1 + X[t * n:(t + 1) * n].sum(1) * .9 + mu + .3 * t
        y[t] = A @ (m + e[t]) if lag else m + A @ e[t]
    y = np.round(y.reshape(-1, 1), 4)
    base = ["va", "vb", "vc"][:k]
    xs = X
    names = list(base)
    if g["cst"]:
        p = int(rng.integers(k + 1))
        xs = np.insert(X, p, 3.0, axis=1)
        names.insert(p, "kk")
    if ints and not g["cst"]:
        xs = xs.astype(int)
    given = (i // 3) % 2
    lay = g["lay"]
    fr = lay in ("frame", "wideframe")
    years = [1970 + 10 * t for t in range(T)]

    def wide(a):
        return np.hstack([a[:, [j]].reshape((n, T), order="F") for j in range(a.shape[1])])
    L = dict(y=y, x=xs, kw={"name_y": "hr", "name_x": list(names)} if (given or fr) else {})
    wn = [v + str(q) for v in names for q in years]
    D = dict(y=wide(y), x=wide(xs), kw={"name_y": ["hr%d" % q for q in years], "name_x": wn} if (given or fr) else {})
    if fr:
        L = dict(y=pd.DataFrame(y, columns=["hr"]), x=pd.DataFrame(xs, columns=names), kw={})
        D = dict(y=pd.DataFrame(D["y"], columns=["hr%d" % q for q in years]), x=pd.DataFrame(D["x"], columns=wn), kw={})
    a, b = (D, L) if lay.startswith("wide") else (L, D)
    mask = [1] * k
    slxkw = {}
    if g["slx"]:
        slxkw["slx_lags"] = g["slx"]
        if g["mask"]:
            mask = [int(v) for v in rng.integers(0, 2, size=k)]
            if not any(mask):
                mask[int(rng.integers(k))] = 1
            slxkw["slx_vars"] = [bool(v) for v in mask]
    nx = list(base) if (given or fr) else ["var_%d" % (j + 1) for j in range(k)]
    return dict(w=w, W=W, n=n, T=T, a=a, b=b, slxkw=slxkw, kind=kind, y=y, X=X,
                **{"in": {"W": enc(W), "y": enc(y), "x": enc(X.astype(float)), "lagged": mask, "name_x": nx,
                          "name_y": "hr" if (given or fr) else "dep_var", "bsk": ["none"]}})


def bsk(reg):
    b = getattr(reg, "bsk", None)
    if b is None:
        return "absent"
    return {"name": [str(v) for v in b["Test"]], "value": enc(np.asarray(b["Statistic"], float).reshape(-1, 1)),
            "df": [int(v) for v in b["df"]], "prob": enc(np.asarray(b["p-value"], float).reshape(-1, 1))}


def alt(f, s, **kw):
    reg, exc = call(f, s["b"]["y"], s["b"]["x"], w=s["w"], **s["b"]["kw"], **kw)
    if reg is None:
        return {"exc": exc}
    return {"exc": None, "betas": enc(reg.betas), "u": enc(reg.u), "vm": enc(np.asarray(reg.vm, float)), "names": table(reg)["var_names"]}
