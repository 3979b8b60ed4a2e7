"""Runs of the ML estimators (C16, C17)."""
from scen import *

ATTRS = ["x", "n", "k", "betas", "rho", "lam", "u", "predy", "predy_e", "e_pred", "e_filtered", "sig2", "logll", "aic", "schwarz",
         "vm", "vm1", "std_err", "z_stat", "pr2", "pr2_e", "mean_y", "std_y", "utu", "name_x", "cfh_test", "output"]
INVARIANTS = ["InBracket", "Optimal", "LayoutOk"]


def similar(W):
    """is W a row-standardised symmetric binary matrix?"""
    b = W > 0
    s = b.sum(1, keepdims=True)
    return int(np.array_equal(b, b.T) and np.allclose(W, b / np.maximum(s, 1)))


def scenario(c, i, cfg, rho=None):
    kind = ["rook", "knn", "gen", "ring"][i % 4]
    wild = i % 8 >= 6
    rho = [.5, -.4, .8, .2, 0.][i % 5] if rho is None else rho
    s = scen(c, i, cfg, n=int(30 + i % 7), noise=25.0 if wild else 3.0, wkind=kind, wt="r", rho=rho)
    if (i // 4) % 3 == 1:        # not row-standardised, spectral radius below one
        n = s["n"]
        from libpysal.weights import W as PW
        ids = list(s["w"].id_order)
        A = s["W"] * (s["W"] > 0)
        A = np.round(A / max(A.sum(0).max(), A.sum(1).max()) * .97, 3)
        A = A if (i // 4) % 2 else np.where(A > 0, np.floor(.97 / (A > 0).sum(1).max() * 1000) / 1000, 0)
        with quiet():
            s["w"] = PW({ids[a]: [ids[b] for b in range(n) if A[a, b]] for a in range(n)},
                        {ids[a]: [float(A[a, b]) for b in range(n) if A[a, b]] for a in range(n)}, id_order=ids, silence_warnings=True)
        s["W"] = s["w"].sparse.toarray()
        s["in"]["W"] = enc(s["W"])
    return s


def run(c, pid, est, limit):
    import spreg
    cfgs = c.generate("MMl", invariants=INVARIANTS)
    cfgs = [dict(g, est=est, diag=(j // 3) % 2) for j, g in enumerate(cfgs)]
    cfgs = pick(c, cfgs, limit)
    par = "rho" if est == "ML_Lag" else "lam"

    def one(job):
        i, cfg = job
        s = scenario(c, i, cfg)
        cfg = dict(cfg, similar=similar(s["W"]))
        kw = dict(s["kw"], **slxkw(cfg, s["w"]))
        kw["w"] = s["w"]
        if est == "ML_Lag":
            kw.update(spat_diag=bool(cfg["diag"]), spat_impacts=None)
        rhos, out = [], None
        for m in ("full", "LU", "ord"):
            reg, exc = call(getattr(spreg, est), s["y"], s["x"], method=m if i % 2 else m.upper(), _limit=12, **kw)
            if exc and exc["type"] == "TimeoutError":
                out = reg, exc
                break
            if reg is not None:
                rhos.append(float(np.ravel(getattr(reg, par))[0]))
            if m == cfg["method"]:
                out = reg, exc
        reg, exc = out
        # without the reduced form, for runs that refuse the power expansion
        e = {"op": est, "cfg": cfg, "in": s["in"], "exc": exc, "rhos": enc(np.array(rhos or [9.9])),
             "obs": snap(reg, ATTRS) if reg is not None else {}}
        if exc:
            e["rho0"] = enc(rho_hat(s, cfg))
        return e

    jobs = [(r * 100000 + i, g) for r in range(1 if QUICK else 4) for i, g in enumerate(cfgs)]
    c.validate(pid, pmap(one, jobs))


def rho_hat(s, cfg):
    """a witness for the maximiser (the specification checks that it is one)"""
    from scipy.optimize import minimize_scalar
    n, W, x = s["n"], s["W"], s["x"].astype(float)
    x = x[:, [j for j in range(x.shape[1]) if j + 1 not in cfg["const"]]]
    X, l = np.hstack([np.ones((n, 1)), x]), x
    m = [bool(b) for b in cfg["mask"]] or [True] * x.shape[1]
    for _ in range(cfg["slx"]):
        l = W @ l
        X = np.hstack([X, l[:, m]])
    P = np.eye(n) - X @ np.linalg.pinv(X)
    e0, e1 = P @ s["y"], P @ (W @ s["y"])
    f = lambda r: n / 2 * np.log(((e0 - r * e1) ** 2).sum() / n) - np.linalg.slogdet(np.eye(n) - r * W)[1]
    return minimize_scalar(f, bounds=(-1, 1), method="bounded", options={"xatol": 1e-9}).x
