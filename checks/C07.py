"""Tests of coefficient stability across regimes (Chow)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from regrun import *

INV = ["SameVariable", "Degrees", "Independent", "Vanish", "AsIsRight"]


def shown(reg):
    """are the rows of the table in the printed summary?"""
    t = get(reg, "output_chow")
    if not isinstance(t, pd.DataFrame) or "CHOW TEST" not in reg.summary:
        return 0
    tail = [" ".join(q.split()) for q in reg.summary[reg.summary.rindex("CHOW TEST"):].split("\n")]
    return int(all(any(q == " ".join(str(v) for v in (r.var_names, int(r.df), "%.3f" % r.value, "%.4f" % r.prob)) for q in tail)
                   for r in t.itertuples()))


def body(c):
    cfgs = c.generate("M07", invariants=INV)
    cfgs.sort(key=lambda g: json.dumps(g, sort_keys=True))
    by = {}
    for g in cfgs:
        g["nq"] = g["ne"] + (g["nr"] + g["kx"]) % 2 if g["ne"] else 0
        by.setdefault((g["est"], g["multi"], g["mixed"]), []).append(g)
    cfgs = [g for k in sorted(by) for g in pick(c, by[k], 7 if QUICK else None)]

    def one(job):
        i, cfg = job
        n = int(cfg["nr"] * (22 + 3 * (cfg["kx"] + cfg["ne"])) + i % 5)
        s = reg_scen(c, i, cfg, n, wkind=["rook", "knn", "gen"][i % 3], wt="r", rho=0.3)
        extra = {}
        if cfg["est"] in ("OLS", "TSLS", "GM_Lag") and i % 3 == 0:
            extra["robust"] = "white"
        if cfg["est"] in ("GM_Lag", "ML_Lag"):
            extra.update(spat_diag=False, spat_impacts=None)
        if "Het" in cfg["est"] or "Hom" in cfg["est"]:
            extra["max_iter"] = 1 + i % 2
        reg, exc = fit(s, cfg, alt=i % 2, **extra)
        o, alt = {}, None
        if reg is not None:
            o = snap(reg, ["betas", "vm", "output_chow"])
            o.update(names=coef_names(reg), shown=shown(reg))
            o["joint"] = enc(np.array(reg.chow.joint))
            o["regi"] = enc(np.asarray(reg.chow.regi))
            # the same regimes under names that sort in the opposite order
            r2, e2 = fit(s, cfg, alt=i % 2, regimes=["g%d" % (9 - r) for r in s["ri"]], **extra)
            if r2 is not None:
                alt = {"joint": enc(np.array(r2.chow.joint)), "regi": enc(np.asarray(r2.chow.regi))}
        return {"op": cfg["est"], "cfg": cfg, "in": {k: s["in"][k] for k in ("labs", "name_x", "name_y", "name_yend", "name_q")},
                "exc": exc, "obs": o, "alt": alt}

    jobs = [(r * 100000 + i, g) for r in range(1 if QUICK else 3) for i, g in enumerate(cfgs)]
    c.validate("C07", pmap(one, jobs))


main("C07", body)
