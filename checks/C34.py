"""Printed reports of systems of equations and of panels."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from reports import *
import panels
import catalog


def one(c, i, g):
    import spreg
    g = dict(g)
    est, m, nr = g["est"], len(g["kx"]), max(g["nr"], 1)
    lag = est == "SURlagIV"
    g["kq"] = [a and a + 1 for a in g["ke"]]
    if lag:
        kmax = max(a * nr * (1 + g["w"]) + (b * 2 + 1) * nr * (1 + g["w"] * g["lagq"]) for a, b in zip(g["kx"], g["ke"]))
        n = max(30, kmax + 12 + i % 5)
    else:
        n = int(max(24 + 3 * m, (max(a + b + q for a, b, q in zip(g["kx"], g["ke"], g["kq"])) + 4) * nr + i % 5))
    g["rowst"] = int(not lag)
    r = [0, .4, -.3, .6][i % 4]
    s = system(c, i, g, n=n, rho=r if lag else 0., lam=0. if lag else r, rowst=not lag)
    pos, kw = arguments(s, g, i, base=0 if est == "SUR" else 1, ybase=None if est in ("SUR", "ThreeSLS") else 1 if lag else 0)
    e = {"op": est, "cfg": g, "in": s["in"], "exc": None, "obs": {}}
    kw.update(nonspat_diag=bool(g["nsd"]))
    if est != "ThreeSLS":
        kw.update(spat_diag=bool(g["spat"]), vm=bool(g["vm"]), w=s["w"])
    if lag:
        kw.update(w_lags=g["w"], lag_q=bool(g["lagq"]), **({"regime_lag_sep": g["wy"] == "by"} if g["nr"] else {}))
    if g["nr"] and i % 2:
        kw["name_regimes"] = "zone"
    g["rname"] = "zone" if g["nr"] and i % 2 else "unknown" if g["nr"] else "absent"
    if est == "SUR" and i % 3 == 0:
        kw["iter"] = True
    reg, e["exc"] = call(getattr(spreg, est), *pos, **kw)
    if reg is None:
        return e
    sls = est in ("ThreeSLS", "SURlagIV")
    o = observe(reg, ["corr", "n", "llik", "niter", "errllik", "surerrllik", "lamsur"], ["b3SLS" if sls else "bSUR", "tsls_inf" if sls else "sur_inf"],
                ["lrtest", "lmtest", "lmEtest", "lmlagtest", "joinrho", "likrlambda", "lamtest", "joinlam"])
    v = getattr(reg, "lamsetp", None)
    o["lamsetp"] = "none" if v is None else enc(np.hstack([np.asarray(x, float).reshape(-1, 1) for x in v]))
    o["b"], o["inf"] = (o.pop("b3SLS"), o.pop("tsls_inf")) if sls else (o.pop("bSUR"), o.pop("sur_inf"))
    o["end"] = [[squash(v) for v in a] for a in o.get("name_bigyend", [])] if sls else []
    o["inst"] = [[squash(v) for v in a] for a in o.get("name_bigq", [])] if sls else []
    with quiet():
        o["rep"] = report(reg.summary)
    e["obs"] = o
    return e


OLD = {"GM_KKP", "Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error"}


def panel(c, i, g):
    import spreg
    g = dict(g)
    est = g["est"]
    s = panels.panel(c, i, g, kinds=("sym",) if est in ("ML_ErrorRE", "Panel_RE_Error") else ("rook", "knn", "gen", "sym"))
    kw = dict(s["slxkw"], vm=bool(i % 2))
    if est == "PooledOLS":
        kw.update(spat_diag=bool(i % 3), nonspat_diag=bool(i % 2), **({"BSK_list": "all"} if i % 4 == 1 else {}))
        if g["opt"] == 1:
            kw["robust"] = "white"
    if est == "PanelRE":
        kw["spat_diag"] = bool(i % 3)
    if est == "GM_ErrorPooled" and g["opt"]:
        kw.update([{"max_iter": 4}, {"step1c": True}][g["opt"] - 1])
    if est in ("ML_LagFE", "ML_LagRE"):
        kw["spat_impacts"] = ["simple", None, "all", "full"][i % 4]
    e = {"op": "panel " + est, "cfg": dict(g, vm=i % 2), "in": {}, "exc": None, "obs": {}}
    reg, e["exc"] = call(getattr(spreg, est), s["a"]["y"], s["a"]["x"], w=s["w"], **s["a"]["kw"], **kw)
    if reg is None:
        return None if est.endswith(("_LagFE", "_LagRE", "FE_Lag", "RE_Lag")) and "power expansion" in str(e["exc"]) else e
    p = catalog.printed(reg.summary)
    q = p[0] if len(p) == 1 else {"head": {}, "rows": [], "tests": []}
    st = np.asarray(reg.z_stat if hasattr(reg, "z_stat") else reg.t_stat, float)
    o = {"count": len(p), "names": [v.strip() for v in reg.name_x], "betas": enc(reg.betas), "se": enc(unnan(reg.std_err).reshape(-1, 1)), "stat": enc(unnan(st)), "vm": enc(np.asarray(reg.vm, float)),
         "rows": [r[0] for r in q["rows"]], "vals": [nums(r[1:]) for r in q["rows"]], "dec": 7 if est in OLD else 5}
    # without a variance (negative, or none computed) a row shows the coefficient only
    o["inf"] = [int(j < len(st) and bool(np.isfinite(st[j]).all()) and bool(np.isfinite(np.ravel(reg.std_err)[j]))) for j in range(len(reg.betas))]
    h = q["head"]
    o["head"] = {"n": int(h.get("Number of Observations", -1)), "k": int(h.get("Number of Variables", -1)), "df": int(h.get("Degrees of Freedom", -1))}
    o["size"] = {"n": int(reg.n), "k": int(reg.k)}
    o["pairs"] = catalog.pairs(reg, q)
    o["sec"] = catalog.sections(reg.summary)
    o["sq"] = [squash(v) for v in reg.name_x]
    b = getattr(reg, "bsk", None)
    o["bsk"] = [] if b is None else [{"name": str(b["Test"][j]), "df": int(b["df"][j]), "w": enc(float(b["Statistic"][j])), "p": enc(float(b["p-value"][j]))} for j in range(len(b))]
    if hasattr(reg, "hausman_stat"):
        o["bsk"].append({"name": "Hausman Specification Test", "df": int(reg.hausman_df), "w": enc(float(reg.hausman_stat)), "p": enc(float(reg.hausman_p))})
    o["tests"] = [{"name": t[0], "df": int(t[1]), "w": enc(float(t[2])), "p": enc(float(t[3]))} for t in q["tests"] if re.match(r"LM |Hausman", t[0]) and "nan" not in t]
    comp = [("Sigma2_epsilon (Idiosyncratic)", "sigma2_epsilon"), ("Sigma2_mu (Individual)", "sigma2_mu"), ("Theta (Quasi-demeaning weight)", "theta")]
    o["comps"] = []
    for nm, a in comp:
        m = re.search(re.escape(nm) + r"\s+(-?[\d.]+)", reg.summary)
        o["comps"].append({"name": nm, "shown": enc(float(m.group(1))) if m else "absent", "value": enc(float(np.asarray(getattr(reg, a)).ravel()[0])) if est == "PanelRE" else "absent"})
    m = getattr(reg, "sp_multipliers", None)
    o["tables"] = len(m) if isinstance(m, dict) else 0
    e["obs"] = o
    return e


def body(c):
    cfgs = c.generate("M34", invariants=["EachOnce", "InOrder", "RegimeTogether", "EndogAfterExog", "CommonLast", "Progress"])
    out = []
    for est, q, t in (("SUR", 110, 300), ("ThreeSLS", 110, 400), ("SURlagIV", 160, 900), ("SURerrorGM", 70, 250), ("SURerrorML", 60, 250)):
        out += pick(c, [g for g in cfgs if g["est"] == est], q if QUICK else t)
    events = pmap(lambda j: one(c, *j), list(enumerate(out)))
    cfgs = c.generate("M20", invariants=["Stacked", "EveryCellOnce", "LagInPeriod", "WithinUnit"])
    out = []
    for est, q, t in (("PooledOLS", 40, 200), ("PanelFE", 20, 100), ("PanelRE", 30, 150), ("GM_ErrorPooled", 25, 100), ("GM_ErrorRE", 20, 100), ("ML_ErrorPooled", 20, 80), ("ML_ErrorFE", 20, 80),
                      ("ML_LagFE", 20, 80), ("ML_LagRE", 20, 80), ("ML_ErrorRE", 15, 60), ("GM_KKP", 15, 60), ("Panel_FE_Lag", 8, 40), ("Panel_FE_Error", 8, 40), ("Panel_RE_Lag", 8, 40), ("Panel_RE_Error", 8, 40)):
        out += pick(c, [g for g in cfgs if g["est"] == est], q if QUICK else t)
    events += [e for e in pmap(lambda j: panel(c, *j), list(enumerate(out))) if e]
    c.validate("C34", events, timeout=840)


main("C34", body)
