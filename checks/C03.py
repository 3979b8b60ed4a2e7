"""2SLS equals the instrumental-variables estimator."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from scen import *

ATTRS = ["x", "z", "h", "q", "yend", "name_z", "name_h", "name_y", "n", "k", "kstar", "betas", "predy", "u", "utu", "hth",
         "hthi", "htz", "zthhthi", "varb", "pfora1a2", "sig2", "sig2n", "sig2n_k", "vm", "std_err", "z_stat", "pr2",
         "mean_y", "std_y", "output"]


def body(c):
    import spreg
    cfgs = c.generate("M04", invariants=["ClosedForm", "OrderCondition", "HDistinct", "ZDistinct", "OwnInstrument",
                                         "NoEndogInH", "LagIsLast"])
    cfgs = [dict(g, est="TSLS", n_k=nk, robust="none") for g in cfgs if g["ne"] and g["wl"] == 1 and g["lagq"] == 0 for nk in (0, 1)]
    cfgs = pick(c, cfgs, 240 if QUICK else None)

    def one(job):
        i, cfg = job
        s = scen(c, i, cfg)
        kw = dict(s["kw"], **slxkw(cfg, s["w"]))
        ya, xa, ea, qa = s["y"], s["x"], s["yend"], s["q"]
        if i % 5 == 1 and s["given"]:      # frames carrying the names
            xa = pd.DataFrame(xa, columns=s["name_x"], index=range(5, 5 + s["n"]))
            ya = pd.DataFrame(ya, columns=["why"])
            ea = pd.DataFrame(ea, columns=s["name_yend"])
            qa = pd.DataFrame(qa, columns=s["name_q"])
            for k in ("name_x", "name_y", "name_yend", "name_q"):
                kw.pop(k)
        elif i % 5 == 2 and cfg["ne"] == 1:
            ea = pd.Series(ea[:, 0], name=s["name_yend"][0]) if s["given"] else ea
        reg, exc = call(spreg.TSLS, ya, xa, ea, qa, sig2n_k=bool(cfg["n_k"]), vm=bool(i % 2), **kw)
        return {"op": "TSLS", "cfg": cfg, "in": s["in"], "exc": exc, "obs": snap(reg, ATTRS) if reg is not None else {}}

    jobs = [(r * 100000 + i, g) for r in range(1 if QUICK else 3) for i, g in enumerate(cfgs)]
    c.validate("C03", pmap(one, jobs))


main("C03", body)
