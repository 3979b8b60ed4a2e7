"""White and HAC covariance matrices."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from scen import *

ATTRS = ["betas", "u", "sig2", "robust", "vm", "std_err", "t_stat", "z_stat", "output"]


def kern(n, rng, i):
    from libpysal.weights import Kernel
    pts = rng.random((n, 2)) * 10
    fn = ["triangular", "uniform", "quadratic", "quartic", "gaussian"][i % 5]
    with quiet():
        k = Kernel(pts, k=int(rng.integers(3, 9)), function=fn, fixed=bool(i % 2), diagonal=True)
    return k, k.sparse.toarray().astype(float)


def body(c):
    import spreg
    cfgs = c.generate("M04", invariants=["ClosedForm", "OrderCondition", "HDistinct", "OwnInstrument"])
    out = []
    for g in cfgs:
        if g["wl"] > 2 or g["slx"] > 1 or g["kx"] == 3:
            continue
        for est in ("OLS", "TSLS", "GM_Lag"):
            if (est == "OLS" and (g["ne"] or g["wl"] > 1 or g["lagq"])) or (est == "TSLS" and (not g["ne"] or g["wl"] > 1 or g["lagq"])):
                continue
            for rb in ("white", "hac", "none"):
                for nk in (0, 1):
                    out.append(dict(g, est=est, robust=rb, n_k=nk))
    by = {}
    for g in out:
        by.setdefault((g["est"], g["robust"], g["n_k"]), []).append(g)
    cfgs = []
    for k in sorted(by):
        cfgs += pick(c, by[k], (8 if k[1] == "none" else 18) if QUICK else 60)

    def one(job):
        i, cfg = job
        s = scen(c, i, cfg, n=int(46 + i % 7), wkind=["rook", "ring"][i % 2], wt="r", rho=0.3)
        kw = dict(s["kw"], **slxkw(cfg, s["w"]))
        inn = s["in"]
        if cfg["robust"] != "none":
            kw["robust"] = cfg["robust"]
        if cfg["robust"] == "hac":
            kw["gwk"], K = kern(s["n"], s["rng"], i)
            inn["K"] = enc(K)
        kw["sig2n_k"] = bool(cfg["n_k"])
        if cfg["est"] == "OLS":
            reg, exc = call(spreg.OLS, s["y"], s["x"], **kw)
        elif cfg["est"] == "TSLS":
            reg, exc = call(spreg.TSLS, s["y"], s["x"], s["yend"], s["q"], **kw)
        else:
            kw["w"] = s["w"]
            if cfg["ne"]:
                kw.update(yend=s["yend"], q=s["q"])
            reg, exc = call(spreg.GM_Lag, s["y"], s["x"], w_lags=cfg["wl"], lag_q=bool(cfg["lagq"]), spat_diag=False, **kw)
        return {"op": cfg["est"], "cfg": cfg, "in": inn, "exc": exc, "obs": snap(reg, ATTRS) if reg is not None else {}}

    c.validate("C02", pmap(one, list(enumerate(cfgs))))


main("C02", body)
