"""Kelejian-Prucha (98/99) GM estimation of spatial error models."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from gm import *


def body(c):
    g = c.generate("MGm", invariants=INVARIANTS)
    cfgs = [dict(d, method="kp98", est="kp98", hard=j % 2) for j, d in enumerate(g["designs"]) if d["ne"] or d["lagq"] == 1]
    cfgs = pick(c, cfgs, 400 if QUICK else None)

    def one(job):
        i, cfg = job
        wild = i % 8 == 0
        s = scen(c, i, cfg, n=int(46 + i % 9), noise=30.0 if wild else 2.0, wkind=["rook", "knn", "gen"][i % 3], rho=[.3, .5, -.2][i % 3])
        reg, exc = fit(cfg, s)
        hard = None
        if exc and cfg["hard"] and "outside the bounds" in exc["msg"]:
            hard, (reg, exc) = exc, fit(dict(cfg, hard=0), s)
        return {"op": est(cfg), "cfg": cfg, "hard": hard, "in": s["in"], "exc": exc, "obs": observe(reg, cfg) if reg is not None else {}}

    jobs = [(r * 100000 + i, g) for r in range(1 if QUICK else 3) for i, g in enumerate(cfgs)]
    c.validate("C11", pmap(one, jobs))


main("C11", body)
