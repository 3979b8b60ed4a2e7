"""SUR and 3SLS."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from surs import *


def one(c, i, g):
    import spreg
    g = dict(g)
    m = len(g["kx"])
    g["kq"] = [a + (i + k) % 2 for k, a in enumerate(g["ke"])] if g["form"] != "stack" else [a + i % 2 for a in g["ke"]]
    kmax = max(a + b + q for a, b, q in zip(g["kx"], g["ke"], g["kq"]))
    s = system(c, i, g, n=int(max(18 + 3 * m, (kmax + 4) * max(g["nr"], 1) + i % 5)))
    pos, kw = arguments(s, g, i, base=0 if g["est"] == "SUR" else 1)
    e = {"op": g["est"], "cfg": g, "in": s["in"], "exc": None, "obs": {}}
    if g["est"] == "SUR":
        eps = {"tight": 1e-9, "mid": 1e-5, "loose": 3e-3}[g["eps"]]
        s["in"]["eps"] = enc(eps)
        kw.update(nonspat_diag=bool(g["nsd"]), spat_diag=bool(g["spat"]), vm=bool(i % 2))
        if g["spat"] or i % 3 == 0:
            kw["w"] = s["w"]
        if g["iter"]:
            kw.update(iter=True, maxiter=g["maxiter"], epsilon=eps)
        reg, e["exc"] = call(spreg.SUR, *pos, **kw)
        if reg is None:
            return e
        e["obs"] = observe(reg, ["varb", "sig", "corr", "bigE", "bigYP", "llik", "n", "niter"], ["bOLS", "bSUR", "sur_inf"], ["lrtest", "lmtest", "lmEtest", "lmlagtest"])
        e["obs"]["t"] = int(reg.niter)
        g["hit"] = int(bool(g["iter"]) and reg.niter == g["maxiter"] + 1)
    else:
        reg, e["exc"] = call(spreg.ThreeSLS, *pos, nonspat_diag=bool(g["nsd"]), **kw)
        if reg is None:
            return e
        e["obs"] = observe(reg, ["tslsE", "varb", "sig", "corr", "bigE"], ["b2SLS", "b3SLS", "tsls_inf"])
    return e


def body(c):
    cfgs = c.generate("M18", invariants=["LimitHolds", "StopsFirst", "Stacked", "SameVar", "WithinSame", "Progress"])
    out = pick(c, [g for g in cfgs if g["est"] == "SUR" and g["iter"]], 260 if QUICK else 1500)
    out += pick(c, [g for g in cfgs if g["est"] == "SUR" and not g["iter"]], 260 if QUICK else None)
    out += pick(c, [g for g in cfgs if g["est"] == "ThreeSLS"], 260 if QUICK else None)
    c.validate("C18", pmap(lambda j: one(c, *j), list(enumerate(out))), timeout=840)


main("C18", body)
