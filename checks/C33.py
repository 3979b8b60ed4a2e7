"""Diagnostics of models with regimes."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from regi import *

PLAIN = ["mulColli", "f_stat", "logll", "aic", "schwarz", "sig2ML", "lm_error", "lm_lag", "rlm_error", "rlm_lag", "lm_sarma",
         "moran_res", "ak_test", "cfh_test", "betas", "vm"]
RECS = {"jarque_bera": "jb", "breusch_pagan": "bp", "koenker_bassett": "kb", "white": "wh"}


def rec(d, key):
    return enc((d[key], d["df"], d["pvalue"])) if isinstance(d, dict) else enc(d)


def shot(reg):
    o = snap(reg, PLAIN)
    for a, key in RECS.items():
        o[a] = rec(getattr(reg, a), key) if hasattr(reg, a) else "absent"
    return o


def body(c):
    import spreg
    cfgs = c.generate("M33", invariants=["ClosedCount", "AnyOrder", "ConstantSpanned", "DroppedAreSums", "SeparateCount"])
    for i, g in enumerate(cfgs):
        rng = c.sub(700000 + i)
        g.update(n_k=int(rng.integers(0, 2)), nq=g["ne"] + int(rng.integers(0, 2)) if g["ne"] else 0, wl=1, lagq=int(rng.integers(0, 2)), std=0)
    full = [g for g in cfgs if g["one"] == 0 and all(g["vary"])]
    part = [g for g in cfgs if not (g["one"] == 0 and all(g["vary"]))]
    cfgs = [g for e, a, b in (("OLS", 45, 75), ("TSLS", 20, 25), ("GM_Lag", 25, 35)) for g in
            pick(c, [g for g in full if g["est"] == e], a if QUICK else None)
            + pick(c, [g for g in part if g["est"] == e], b if QUICK else 400)]

    def one(job):
        i, cfg = job
        kv = 1 + cfg["kx"] * (1 + cfg["slx"])
        n = int(cfg["nr"] * (16 + kv * (kv + 1) // 2 + 3 * cfg["nq"]) + i % 7)
        s = reg_scen(c, i, cfg, n, wkind=["rook", "knn", "gen"][i % 3], rho=0.3, wt="o" if cfg["lagsep"] else None)
        kw = dict(s["kw"])
        kw["cols2regi"] = "all" if all(cfg["vary"]) and i % 2 else [bool(b) for b in cfg["vary"]]
        kw["constant_regi"] = "one" if cfg["one"] else "many"
        kw["robust"] = None if cfg["robust"] == "none" else cfg["robust"]
        kw.update(w=s["w"], sig2n_k=bool(cfg["n_k"]), spat_diag=bool(cfg["spat"]))
        if cfg["slx"]:
            kw["slx_lags"] = 1
        if cfg["ne"]:
            kw.update(yend=s["yend"], q=s["q"])
        if cfg["est"] == "OLS":
            reg, exc = call(spreg.OLS_Regimes, s["y"], s["x"], s["regimes"], regime_err_sep=bool(cfg["errsep"]),
                            nonspat_diag=bool(cfg["nonspat"]), moran=bool(cfg["moran"]), white_test=bool(cfg["white"]), **kw)
        elif cfg["est"] == "TSLS":
            reg, exc = call(spreg.TSLS_Regimes, s["y"], s["x"], regimes=s["regimes"], regime_err_sep=bool(cfg["errsep"]), **kw)
        else:
            reg, exc = call(spreg.GM_Lag_Regimes, s["y"], s["x"], s["regimes"], w_lags=cfg["wl"], lag_q=bool(cfg["lagq"]),
                            regime_lag_sep=bool(cfg["lagsep"]), regime_err_sep=bool(cfg["errsep"]), spat_impacts=None, **kw)
        o = {}
        if reg is not None:
            o = shot(reg)
            m = getattr(reg, "multi", None)
            o["keys"] = [str(k) for k in m] if isinstance(m, dict) else "absent"
            o["multi"] = [shot(m[k]) for k in m] if isinstance(m, dict) else "absent"
        return {"op": cfg["est"] + "_Regimes", "cfg": cfg, "in": s["in"], "exc": exc, "obs": o}

    jobs = [(r * 100000 + i, g) for r in range(1 if QUICK else 2) for i, g in enumerate(cfgs)]
    c.validate("C33", pmap(one, jobs))


main("C33", body)
