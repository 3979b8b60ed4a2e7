"""Spatial diagnostics equal their formulas."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from scen import *

LM = ["lm_error", "lm_lag", "rlm_error", "rlm_lag", "lm_sarma", "lm_wx", "lm_spdurbin", "rlm_wx", "rlm_durlag", "lm_slxerr", "moran_res", "betas"]
ALL = ["lme", "lml", "rlme", "rlml", "sarma", "lmwx", "lmspdurbin", "rlmwx", "rlmdurlag", "lmslxerr"]


def body(c):
    import spreg
    cfgs = c.generate("M04", invariants=["ClosedForm", "OrderCondition", "HDistinct", "OwnInstrument"])
    ols = [dict(g, est="OLS", n_k=j % 2, robust="none", moran=j % 3 != 0) for j, g in enumerate(
        g for g in cfgs if not g["ne"] and g["wl"] == 1 and not g["lagq"])]
    iv = [dict(g, est=("TSLS" if g["wl"] == 1 and not g["lagq"] and g["ne"] and j % 2 else "GM_Lag"), n_k=j % 2, robust="none")
          for j, g in enumerate(g for g in cfgs if g["wl"] < 3 and g["slx"] < 2)]
    rep = 4 if QUICK else 20
    cfgs = [dict(g) for g in ols for _ in range(rep)] + pick(c, iv, 180 if QUICK else 800)
    comf = [dict(g, est="GM_Lag", n_k=j % 2, robust="none") for j, g in enumerate(
        [g for g in iv if g["slx"] == 1 and not g["mask"] and not g["ne"]] * 3)]
    cfgs += comf[:60]
    for j, g in enumerate(cfgs):
        if g["est"] == "OLS":
            t = [a for k, a in enumerate(ALL) if (j * 2654435761 >> k) & 1] or ["rlmdurlag"]
            g["tests"] = list(ALL) if j % 4 == 0 else t
            g["moran"] = int(j % 3 != 0)
        g["all"] = int(j % 4 == 0)

    def one(job):
        i, cfg = job
        est = cfg["est"]
        s = scen(c, i, cfg, n=int(30 + i % 9) if est == "OLS" else int(46 + i % 5), noise=4.0,
                 wkind=None if est == "OLS" else ["rook", "ring"][i % 2], wt=None if est == "OLS" else "r", rho=.3)
        kw = dict(s["kw"], **slxkw(cfg, s["w"]))
        kw["w"] = w = s["w"]
        o = {}
        if est == "OLS":
            reg, exc = call(spreg.OLS, s["y"], s["x"], spat_diag=True, moran=bool(cfg["moran"]), nonspat_diag=bool(i % 2), **kw)
            if reg is not None:
                o = snap(reg, LM)
                if cfg["moran"]:
                    m, exc = call(spreg.MoranRes, reg, w, z=True)
                    if m is not None:
                        o["mr"] = enc((m.I, m.eI, m.vI, m.zI, m.p_norm))
                if cfg["slx"] == 0 and exc is None:
                    t, exc = call(spreg.LMtests, reg, w, **({} if cfg["all"] else {"tests": cfg["tests"]}))
                    if t is not None:
                        o["sub"] = snap(t, cfg["tests"])
        elif est == "TSLS":
            reg, exc = call(spreg.TSLS, s["y"], s["x"], s["yend"], s["q"], spat_diag=True, **kw)
        else:
            if cfg["ne"]:
                kw.update(yend=s["yend"], q=s["q"])
            reg, exc = call(spreg.GM_Lag, s["y"], s["x"], w_lags=cfg["wl"], lag_q=bool(cfg["lagq"]), sig2n_k=bool(cfg["n_k"]),
                            spat_diag=True, **kw)
        if est != "OLS" and reg is not None:
            o = snap(reg, ["betas", "ak_test", "cfh_test"])
            for case in ("gen", "nosp"):
                a, exc = call(spreg.AKtest, reg, w, case=case)
                if a is not None:
                    o["ak_" + case] = enc((a.mi, a.ak, a.p))
        return {"op": est, "cfg": cfg, "in": s["in"], "exc": exc, "obs": o}

    c.validate("C09", pmap(one, list(enumerate(cfgs))))


main("C09", body)
