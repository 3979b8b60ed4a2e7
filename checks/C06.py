"""Regime models: block design, restrictions, separate fits."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from regi import *

ATTRS = ["predy_e", "e_pred", "x", "z", "h", "name_x", "name_z", "name_h", "n", "k", "betas", "predy", "u", "vm", "std_err", "t_stat",
         "z_stat", "sig2", "utu", "sig2n", "r2", "ar2", "logll", "aic", "schwarz", "output"]
MULTI = ["betas", "vm", "std_err", "t_stat", "z_stat", "u", "predy", "n", "k", "utu", "sig2", "r2", "name_x", "name_z"]


def complete(c, i, g):
    """the options the structure does not determine"""
    rng = c.sub(500000 + i)
    e = g["est"]
    rob = {"OLS": ["none", "none", "white", "hac"], "TSLS": ["none", "white", "hac", "ogmm"],
           "GM_Lag": ["none", "white", "hac", "ogmm"]}[e]
    allv = g["one"] == 0 and all(g["vary"])
    errsep = 0 if e == "GM_Lag" else int(rng.integers(0, 2)) if not (allv and i % 2) else 1
    d = dict(g, robust=rob[int(rng.integers(0, 4))], n_k=int(rng.integers(0, 2)), errsep=errsep, lagsep=0, creg=[],
             wl=int(rng.integers(1, 3)), lagq=int(rng.integers(0, 2)) if g["ne"] < g["nq"] or e == "GM_Lag" else 1,
             kind=KINDS[i % len(KINDS)], std=0)
    if e == "GM_Lag" and d["slx"] == 0:
        d["lagsep"], d["std"] = int(rng.integers(0, 2)), int(rng.integers(0, 2))
    if allv and errsep and d["robust"] != "hac" and d["slx"] == 0 and g["kx"] - len(g["const"]) > 1 and rng.integers(0, 3):
        d["creg"] = [g["kx"]]
    if allv and d["robust"] == "hac":
        d["errsep"] = int(rng.integers(0, 2))      # switched off by the library
    return d


def body(c):
    import spreg
    cfgs = c.generate("M06", invariants=["ClosedForm", "EveryVariableOnce", "Separate", "Count", "Injective", "Order"])
    cfgs = [complete(c, i, g) for i, g in enumerate(cfgs)]
    full = [g for g in cfgs if g["one"] == 0 and all(g["vary"])]
    part = [g for g in cfgs if not (g["one"] == 0 and all(g["vary"]))]
    cfgs = [g for e, a, b in (("OLS", 30, 50), ("TSLS", 30, 60), ("GM_Lag", 15, 60)) for g in
            pick(c, [g for g in full if g["est"] == e], a if QUICK else None)
            + pick(c, [g for g in part if g["est"] == e], b if QUICK else None)]

    def one(job):
        i, cfg = job
        kcol = 1 + (cfg["kx"] - len(cfg["const"])) * (1 + cfg["slx"]) + cfg["ne"] + cfg["nq"] * 3
        n = int(cfg["nr"] * (14 + 2 * kcol) + i % 7)
        s = reg_scen(c, i, cfg, n, kind=cfg["kind"], wkind=["rook", "knn", "gen"][i % 3], rho=0.3, wt="o" if cfg["lagsep"] or cfg["std"] else None)
        if cfg["std"]:
            s["w"].transform = "r"
            s["in"]["W"] = enc(s["w"].sparse.toarray())
        kw = dict(s["kw"])
        allv = cfg["one"] == 0 and all(cfg["vary"])
        kw["cols2regi"] = "all" if all(cfg["vary"]) and i % 2 else [bool(b) for b in cfg["vary"]]
        kw["constant_regi"] = "one" if cfg["one"] else "many"
        if cfg["robust"] != "none":
            kw["robust"] = cfg["robust"]
        elif cfg["est"] == "GM_Lag":
            kw["robust"] = None
        if cfg["robust"] == "hac":
            gwk, K = make_kernel(n, s["rng"])
            kw["gwk"] = gwk
            s["in"]["K"] = enc(K)
        if cfg["slx"] or cfg["est"] == "GM_Lag":
            kw["w"] = s["w"]
        if cfg["slx"]:
            kw["slx_lags"] = 1
        if cfg["ne"]:
            kw.update(yend=s["yend"], q=s["q"])
        if cfg["est"] == "OLS":
            reg, exc = call(spreg.OLS_Regimes, s["y"], s["x"], s["regimes"], sig2n_k=bool(cfg["n_k"]),
                            regime_err_sep=bool(cfg["errsep"]), nonspat_diag=bool(i % 2), **kw)
        elif cfg["est"] == "TSLS":
            reg, exc = call(spreg.TSLS_Regimes, s["y"], s["x"], regimes=s["regimes"], sig2n_k=bool(cfg["n_k"]),
                            regime_err_sep=bool(cfg["errsep"]), **kw)
        else:
            reg, exc = call(spreg.GM_Lag_Regimes, s["y"], s["x"], s["regimes"], w_lags=cfg["wl"], lag_q=bool(cfg["lagq"]),
                            sig2n_k=bool(cfg["n_k"]), regime_lag_sep=bool(cfg["lagsep"]), spat_diag=False, spat_impacts=None, **kw)
        o = {}
        if reg is not None:
            o = snap(reg, ATTRS)
            o.update(multi_snap(reg, MULTI))
            if cfg["est"] == "OLS" and not isinstance(getattr(reg, "multi", None), dict):
                from spreg import diagnostics as dg
                for a, f in (("logll", dg.log_likelihood), ("aic", dg.akaike), ("schwarz", dg.schwarz)):
                    with quiet():
                        o[a] = enc(f(reg))
        return {"op": cfg["est"] + "_Regimes", "cfg": cfg, "in": s["in"], "exc": exc, "obs": o}

    jobs = [(r * 100000 + i, g) for r in range(1 if QUICK else 2) for i, g in enumerate(cfgs)]
    c.validate("C06", pmap(one, jobs))


main("C06", body)
