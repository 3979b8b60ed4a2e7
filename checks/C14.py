"""GM error models with regimes: histories, pooled and by regime."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from regi import *
import gm

ATTRS = [a for a in gm.ATTRS if a != "output"] + ["output", "h"]


def complete(c, i, d, p):
    g = dict(d, **p)
    g["est"] = gm.CLS[g["form"]] + gm.SUF[g["method"]]
    rng = c.sub(400000 + i)
    lag = g["form"] == "lag"
    multi = g["sep"] == 1
    g.update(hard=0, inv=["power_exp", "true_inv"][(i // 2) % 2], r=0, creg=[], robust="none", n_k=0,
             lagsep=g["sep"] if lag else 0, errsep=0 if lag else g["sep"],
             wl=int(rng.integers(1, 3)) if lag else 1, lagq=int(rng.integers(0, 2)) if lag else 1,
             std=int(rng.integers(0, 2)), blockw=0 if multi else int(rng.integers(0, 3) == 0))
    if g["method"] == "kp98":
        g["maxit"] = 1
    return g


def kwargs(g, s, i):
    kw = dict(s["kw"], w=s["w"], constant_regi="one" if g["one"] else "many",
              cols2regi="all" if all(g["vary"]) and i % 2 else [bool(b) for b in g["vary"]])
    if g["ne"]:
        kw.update(yend=s["yend"], q=s["q"])
    if g["slx"]:
        kw["slx_lags"] = g["slx"]
    if g["form"] == "lag":
        kw.update(w_lags=g["wl"], lag_q=bool(g["lagq"]), regime_lag_sep=bool(g["sep"]), regime_err_sep=bool(g["sep"]))
    else:
        kw["regime_err_sep"] = bool(g["sep"])
    if g["method"] == "het":
        kw["step1c"] = bool(g["step1c"])
        if g["form"] != "x":
            kw["inv_method"] = g["inv"]
    elif g["method"] == "hom":
        kw["A1"] = g["a1"]
    return kw


def base(g, s, W):
    """columns of the model before the interaction, with their vary flags"""
    x = np.delete(s["x"], [j - 1 for j in g["const"]], axis=1).astype(float)
    xs = [np.ones((s["n"], 1)), x] + ([W @ x] if g["slx"] else [])
    X = np.hstack(xs)
    vx = [1 - g["one"]] + g["vary"][:X.shape[1] - 1]
    ve = g["vary"][X.shape[1] - 1:]
    E = np.hstack([s["yend"]]) if g["ne"] else np.zeros((s["n"], 0))
    if g["form"] == "lag":
        E, ve = np.hstack([E, W @ s["y"]]), ve + [0]
    return (X, vx), (E, ve)


def observe(reg):
    return dict(snap(reg, ATTRS), **multi_snap(reg, [a for a in ATTRS if a != "output"]))


def history(c, i, g):
    import spreg
    kcol = 1 + (g["kx"] - len(g["const"])) * (1 + g["slx"]) + g["ne"] + g["nq"] * 2 + (3 if g["form"] == "lag" else 0)
    n = int(g["nr"] * (12 + 2 * kcol) + i % 5)
    s = reg_scen(c, i, g, n, wkind=["rook", "knn", "gen"][i % 3], rho=[.3, .4, -.2][i % 3], wt="o", noise=1.5)
    if g["blockw"]:
        block_weights(s)
    if g["std"]:
        s["w"].transform = "r"
    s["W"] = W = s["w"].sparse.toarray()
    s["in"]["W"] = enc(W)
    kw = kwargs(g, s, i)
    cls = getattr(spreg, g["est"] + "_Regimes")
    ev = {"op": g["est"] + "_Regimes", "cfg": g, "in": s["in"], "exc": None, "obs": {}}

    def run(**o):
        k = {a: (list(v) if isinstance(v, list) else v) for a, v in kw.items()}
        return call(cls, s["y"], s["x"], regimes=s["regimes"], **dict(k, **o))
    its = [{}] if g["method"] == "kp98" else [dict(max_iter=m, epsilon=-1.0) for m in range(1, g["maxit"] + 1)]
    runs = []
    for o in its:
        reg, exc = run(**o)
        if reg is None:
            ev["exc"] = exc
            return ev
        runs.append(reg)
    if g["method"] == "kp98":
        ev["obs"] = {"runs": [observe(r) for r in runs]}
        return ev
    y = s["y"].astype(float)
    first = runs[0]
    if hasattr(first, "multi"):
        l0, lam = [], []
        W0 = np.array([[float(v) for v in r] for r in s["in"]["W0"]["$m"]])
        for r, k in enumerate(first.multi):
            m = first.multi[k]
            ix = [j for j in range(n) if s["ri"][j] == r + 1]
            w = W0[np.ix_(ix, ix)]
            if g["std"]:
                t = w.sum(1, keepdims=True)
                w = np.divide(w, t, out=np.zeros_like(w), where=t > 0)
            z = dense(m.x if g["form"] == "x" else m.z)
            h = None if g["form"] == "x" else dense(m.h)
            if z.shape[0] != len(ix):
                l0.append(0.0)
            else:
                l0.append(float(gm.explain_raw(np.asarray(m.betas[:-1], dtype=float), w, y[ix], z, h, g["method"] == "het" and h is not None)))
            lam.append([l0[-1]] + [float(q.multi[k].betas[-1, 0]) for q in runs])
    else:
        D = np.array([[float(a == r + 1) for r in range(g["nr"])] for a in s["ri"]])
        (X, vx), (E, ve) = base(g, s, W)
        z = interact([(X, vx), (E, ve)], D)
        wz = interact([(W @ X, vx), (W @ E, ve)], D)
        h = None if g["form"] == "x" else dense(first.h)
        l0 = float(gm.explain_raw(np.asarray(first.betas[:-1], dtype=float), W, y, z, h, False, wz))
        lam = [[l0] + [float(q.betas[-1, 0]) for q in runs]]
    ds = np.abs(np.diff(np.array(lam), axis=1))
    ref = ds[0]
    eps = ref[g["conv"] - 1] * 1.3 + 1e-9 if g["conv"] and g["conv"] <= len(ref) else ds.min() * .5
    eps = float(min(eps, .9))
    # the tolerance must not coincide with some change
    reg, exc = run(max_iter=g["maxit"], epsilon=eps)
    if reg is None:
        ev["exc"] = exc
        return ev
    ev["in"].update(lam0=[enc(v) for v in l0] if isinstance(l0, list) else enc(l0), eps=enc(eps))
    ev["obs"] = {"runs": [observe(r) for r in runs], "stop": observe(reg)}
    return ev


def body(c):
    des = c.generate("M14", invariants=["OwnIterations", "Cells", "Progress"])
    pro = c.generate("MGm", invariants=gm.INVARIANTS)["protocols"]
    pro = [p for p in pro if p["maxit"] <= 3]
    by = {m: [p for p in pro if p["method"] == m] for m in ("kp98", "het", "hom")}
    for m in by:
        c.pyrng.shuffle(by[m])
    cfgs = []
    for form in ("x", "iv", "lag"):
        for m in ("kp98", "het", "hom"):
            dd = [d for d in des if d["form"] == form]
            mm = pick(c, [d for d in dd if d["sep"]], 9 if QUICK else None)
            pp = pick(c, [d for d in dd if not d["sep"]], 16 if QUICK else None)
            cfgs += [complete(c, len(cfgs) + j, d, by[m][(len(cfgs) + j) % len(by[m])]) for j, d in enumerate(mm + pp)]
    jobs = list(enumerate(cfgs))
    c.validate("C14", pmap(lambda j: history(c, *j), jobs), timeout=840)


main("C14", body)
