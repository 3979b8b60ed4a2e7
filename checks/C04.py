"""Spatial two stage least squares."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from scen import *

ATTRS = ["z", "h", "q", "yend", "name_z", "n", "k", "betas", "rho", "predy", "u", "sig2", "vm", "std_err", "z_stat",
         "predy_e", "e_pred", "pr2", "pr2_e", "output"]


def body(c):
    import spreg
    cfgs = c.generate("M04", invariants=["ClosedForm", "OrderCondition", "HDistinct", "ZDistinct", "OwnInstrument",
                                         "NoEndogInH", "LagIsLast"])
    cfgs = [dict(g, est="GM_Lag", n_k=(j // 2) % 2, robust="none", hard=j % 2) for j, g in enumerate(cfgs)
            if g["ne"] or g["lagq"] == 1]
    cfgs = pick(c, cfgs, 300 if QUICK else None)

    def one(job):
        i, cfg = job
        wild = i % 9 == 0          # noise only: rho is anywhere
        s = scen(c, i, cfg, n=int(46 + i % 9), noise=40.0 if wild else 1.0, wkind=["rook", "knn", "gen"][i % 3], rho=0.3)
        kw = dict(s["kw"], **slxkw(cfg, s["w"]))
        kw["w"] = s["w"]
        if cfg["ne"]:
            kw.update(yend=s["yend"], q=s["q"])
        reg, exc = call(spreg.GM_Lag, s["y"], s["x"], w_lags=cfg["wl"], lag_q=bool(cfg["lagq"]), sig2n_k=bool(cfg["n_k"]),
                        spat_diag=False, spat_impacts=None, hard_bound=bool(cfg["hard"]), **kw)
        o = {}
        if reg is not None:
            o = snap(reg, ATTRS)
            o["h_meaning"] = [meaning(l) for l in reg.name_h]
        return {"op": "GM_Lag", "cfg": cfg, "in": s["in"], "exc": exc, "obs": o}

    jobs = [(r * 100000 + i, g) for r in range(1 if QUICK else 2) for i, g in enumerate(cfgs)]
    c.validate("C04", pmap(one, jobs))


main("C04", body)
