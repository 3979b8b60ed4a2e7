"""Front ends next to the estimators they select."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from catalog import *


def one(c, i, g):
    import spreg
    g = dict(g)
    name, kw, s = build(c, i, g)
    est, regi = g["est"], g["regi"]
    kw["vm"] = bool(i % 2)
    kw["name_w"], kw["name_ds"] = "weights file", "data file"
    if regi:
        kw["name_regimes"] = "REGION"
    if est in ("OLS", "TSLS"):
        kw.update(sig2n_k=bool(i % 3), spat_diag=bool(i % 2))
    if est == "OLS":
        kw.update(nonspat_diag=bool(i % 5), white_test=bool(i % 2), moran=bool(i % 2))
        if kw.get("robust") == "hac":
            kw["name_gwk"] = "kernel"
    if est == "GM_Lag":
        kw.update(spat_diag=bool(i % 2), spat_impacts=["simple", "full", "power", None][i % 4], sig2n_k=bool(i % 3))
    if est == "ML_Lag":
        kw.update(spat_diag=bool(i % 2), spat_impacts=["simple", "full", None][i % 3], method=["full", "lu", "ord"][i % 3], epsilon=[1e-7, 1e-5][i % 2])
    if est == "ML_Error":
        kw.update(method=["full", "lu", "ord"][i % 3], epsilon=[1e-7, 1e-5][i % 2])
    if est.endswith(("_Het", "_Hom")):
        if i % 3:
            kw["max_iter"] = 1 + i % 4
        if est.endswith("_Het") and i % 2:
            kw["step1c"] = True
        if est.endswith("_Hom"):
            kw["A1"] = ["hom_sc", "het", "hom"][i % 3]
    if est.startswith("GM_Combo") and not regi and i % 4 == 0:
        kw["lag_q"] = False
    kw.pop("regime_lag_sep" if est in ("OLS", "TSLS") else "", None)
    cp = lambda d: {k: (v.copy() if isinstance(v, (np.ndarray, pd.DataFrame, pd.Series)) else list(v) if isinstance(v, list) else v) for k, v in d.items()}
    k1, k2 = cp(kw), cp(kw)
    front = g["front"]
    if front == "GMM_Error":
        k1["estimator"] = g["method"]
        if g["wy"]:
            k1["add_wy"] = True
        if g["method"] == "het" and i % 2:
            del k1["estimator"]        # the default
        if regi and i % 3 == 0:
            front = "GMM_Error_Regimes"
    reg, exc = call(getattr(spreg, front), **k1)
    ref, exc2 = call(getattr(spreg, g["target"]), **k2)
    o = {"exc2": exc2}
    if reg is not None and ref is not None:
        a, b = attributes(reg), attributes(ref)
        for k in ("constant_check",):
            a.pop(k, None), b.pop(k, None)
        for d in (a, b):
            if d.get("slx_vars", {}).get("kind") == "text":      # the default is spelled "All" or "all"
                d["slx_vars"]["value"] = d["slx_vars"]["value"].lower()
        o.update(a=a, b=b)
        o["class"] = type(ref).__name__ if front == "GMM_Error_Regimes" else type(reg).__name__
        if front == "GMM_Error" and regi:
            o["class"] = type(ref).__name__ if type(reg).__name__ == "GMM_Error_Regimes" else type(reg).__name__
    return {"op": front, "cfg": g, "in": {}, "exc": exc, "obs": o}


def unknown(c, i):
    import spreg
    s = scen(c, 5000 + i, {"kx": 2, "ne": i % 2, "nq": 2 * (i % 2)}, wt="r", given=True)
    kw = dict(y=s["y"], x=s["x"], w=s["w"], name_y="why", name_x=["a", "b"])
    extra = dict(yend=s["yend"], q=s["q"]) if i % 2 else {}
    reg, exc = call(spreg.GMM_Error, estimator="gm%d" % i, **kw, **extra)
    ref, _ = call(spreg.GM_Error_Het, **kw)
    return {"op": "unknown-estimator", "cfg": {"op": "unknown-estimator", "i": i}, "in": {}, "exc": exc,
            "obs": {} if reg is None else {"warned": int("not allowed" in str(get(reg, "warning"))), "betas": enc(reg.betas), "betas0": enc(ref.betas)}}


def body(c):
    cfgs = c.generate("M26", invariants=["Selects"])
    cfgs.sort(key=lambda g: json.dumps(g, sort_keys=True))
    by = {}
    for g in cfgs:
        by.setdefault((g["est"], g["regi"], g["sep"], bool(g["mask"])), []).append(g)
    out = [g for k in sorted(by) for g in pick(c, by[k], 6 if QUICK else 60)]
    for k in sorted(by):                       # more regressors than the catalogue has
        out += [{**g, "wide": 5} for g in by[k] if g["slx"] and not g["mask"] and not g["cst"] and g["vk"] in ("all", "first")][:3]
    ev = pmap(lambda j: one(c, *j), list(enumerate(out))) + [unknown(c, i) for i in range(4)]
    c.validate("C26", [e for e in ev if e], timeout=840)


main("C26", body)
