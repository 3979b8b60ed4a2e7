"""Spatial lag and spatial error systems."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from surs import *


def one(c, i, g):
    import spreg
    g = dict(g)
    m = len(g["kx"])
    lag = g["est"] == "SURlagIV"
    g["kq"] = [a and a + 1 for a in g["ke"]]
    if lag:
        kmax = max(a * max(g["nr"], 1) * (1 + g["w"]) + (b * 2 + 1) * max(g["nr"], 1) * (1 + g["w"] * g["lagq"]) for a, b in zip(g["kx"], g["ke"]))
        n = max(30, kmax + 12 + i % 5)
    else:
        n = int(max(24 + 3 * m, (max(g["kx"]) + 4) * max(g["nr"], 1) + i % 5))
    g["rowst"] = int(not lag or bool((i // 2) % 2))
    r = [0, .4, -.3, .6][i % 4]
    s = system(c, i, g, n=n, rho=r if lag else 0., lam=0. if lag else r, rowst=not lag)
    pos, kw = arguments(s, g, i, base=1, ybase=1 if lag else 0)
    e = {"op": g["est"], "cfg": g, "in": s["in"], "exc": None, "obs": {}}
    kw.update(nonspat_diag=bool(g["nsd"]), spat_diag=bool(g["spat"]), w=s["w"])
    if lag:
        reg, e["exc"] = call(spreg.SURlagIV, *pos, w_lags=g["w"], lag_q=bool(g["lagq"]), vm=bool(i % 2), **kw, **({"regime_lag_sep": g["wy"] == "by"} if g["nr"] else {}))
        if reg is not None:
            e["obs"] = observe(reg, ["tslsE", "varb", "sig", "corr", "bigE"], ["b2SLS", "b3SLS", "tsls_inf"], ["joinrho"])
    elif g["est"] == "SURerrorGM":
        reg, e["exc"] = call(spreg.SURerrorGM, *pos, vm=bool(i % 2), **kw)
        if reg is not None:
            e["obs"] = observe(reg, ["lamsur", "varb", "sig", "corr", "bigE", "n"], ["bSUR", "sur_inf"])
    else:
        reg, e["exc"] = call(spreg.SURerrorML, *pos, vm=bool(g["vm"]), **kw)
        if reg is not None:
            e["obs"] = observe(reg, ["lamsur", "lamols", "varb", "sig", "corr", "bigE", "n", "llik", "errllik", "surerrllik"], ["bSUR", "sur_inf"],
                               ["lrtest", "likrlambda", "lamtest", "joinlam"])
            for a in ("vm", "lamsetp"):
                v = getattr(reg, a)
                e["obs"][a] = "none" if v is None else enc(np.hstack([np.asarray(x, float).reshape(-1, 1) for x in v]) if a == "lamsetp" and isinstance(v, (tuple, list)) else np.asarray(v, float))
    return e


def body(c):
    cfgs = c.generate("M19", invariants=["Built", "Identified", "LagLast", "TestedVary", "Progress"])
    out = pick(c, [g for g in cfgs if g["est"] == "SURlagIV"], 200 if QUICK else 1500)
    out += pick(c, [g for g in cfgs if g["est"] == "SURerrorGM"], 100 if QUICK else None)
    out += pick(c, [g for g in cfgs if g["est"] == "SURerrorML"], 120 if QUICK else None)
    c.validate("C19", pmap(lambda j: one(c, *j), list(enumerate(out))), timeout=840)


main("C19", body)
