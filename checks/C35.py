"""Headings, names and warnings of reports."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from catalog import *
import panels
import surs

KEYS = {"ds": "Data set", "w": "Weights matrix", "y": "Dependent Variable"}


def read(text):
    """per equation the heading and the names; the warnings of the whole report"""
    eqs, cur = [], None
    for q in text.split("\n"):
        if q.startswith("SUMMARY OF OUTPUT"):
            t = q.split(":", 1)[1].strip()
            cur = {"title": t.upper(), "regime": t.rpartition("REGIME ")[2].partition(" (METHOD")[0], "ds": "absent", "w": "absent", "y": "absent", "regvar": "absent"}
            eqs.append(cur)
        elif cur is not None:
            for k, v in KEYS.items():
                m = re.match(re.escape(v) + r"\s*:\s*(.*?)(?:\s{4,}.*)?$", q)
                if m and cur[k] == "absent":
                    cur[k] = m.group(1).strip()
            m = re.match(r"Regimes variable:\s*(\S.*?)\s*$", q)
            if m:
                cur["regvar"] = m.group(1)
    return {"eqs": eqs, "warn": [q.strip() for q in text.split("\n") if q.startswith("Warning")]}


def names(kw, i):
    """names of the data set and of the weights, given or not"""
    if i % 3:
        kw["name_ds"] = "homicides"
    if i % 2:
        kw["name_w"] = "queen"
    return {"ds": kw.get("name_ds", "unknown"), "w": kw.get("name_w", "unknown")}


def rhos(m):
    """every coefficient of a lagged dependent variable of a fit (a pooled fit has one per regime when it lets them differ)"""
    if not hasattr(m, "rho"):
        return ["absent"]
    o = getattr(m, "output", None)
    many = [float(v) for v, t in zip(o["coefficients"], o["var_names"]) if str(t).endswith("W_" + str(m.name_y))] if o is not None and "coefficients" in o else []
    return [enc(v) for v in (many if len(many) > 1 else [float(np.ravel(m.rho)[0])])]


def one(c, i, g):
    g = dict(g)
    name, kw, s = build(c, i, g, rho=.3)
    nm = names(kw, i)
    if g["regi"]:
        if i % 5 < 2:
            kw["name_regimes"] = "zone"
        nm["regvar"] = kw.get("name_regimes", "absent")
    kw.pop("latex", None)
    if g["est"] in ("ML_Lag", "ML_Error"):
        g["method"] = kw["method"] = ["full", "ord", "LU"][i % 3]
    else:
        g["method"] = "none"
    if g["est"] in ("OLS", "TSLS", "Probit") and i % 4 == 1 and not g["slx"] and not g["regi"] and g["robust"] == "none":
        kw.pop("w")
        kw.pop("name_w", None)
        nm["w"] = "none"
    if g["est"] in ("GM_Lag", "GM_Combo", "GM_Combo_Het", "GM_Combo_Hom") and i % 4 == 2 and not g["regi"]:
        # hardly any signal: the lag coefficient often falls outside its bounds
        kw["y"] = s["y"] = s["rng"].normal(size=s["y"].shape) if g["form"] != "frame" else kw["y"]
    g["kind"] = "cross"
    reg, exc = run(name, kw)
    o = {}
    if reg is not None:
        o = read(reg.summary)
        parts = list(reg.multi.values()) if getattr(reg, "multi", None) else [reg]
        o["rho"] = [r for m in parts for r in rhos(m)] if not g["est"].startswith("ML") else []
    ins = {k: s["in"].get(k, []) for k in ("labs", "name_x", "name_y")}
    return {"op": name, "cfg": g, "in": dict(ins, **nm), "exc": exc, "obs": o}


def panel(c, i, g):
    import spreg
    g = dict(g, kind="panel", regi=0)
    s = panels.panel(c, i, g, kinds=("sym",) if g["est"] == "ML_ErrorRE" else ("rook", "knn", "sym"))
    kw = dict(s["slxkw"])
    nm = names(kw, i)
    reg, exc = call(getattr(spreg, g["est"]), s["a"]["y"], s["a"]["x"], w=s["w"], **s["a"]["kw"], **kw)
    if reg is None and "power expansion" in exc["msg"]:
        return None
    return {"op": "panel " + g["est"], "cfg": g, "in": nm, "exc": exc, "obs": read(reg.summary) if reg is not None else {}}


def system(c, i, g):
    import spreg
    g = dict(g, kind="system", regi=int(g["nr"] > 0), slx=0)
    g["kq"] = [a and a + 1 for a in g["ke"]]
    lag = g["est"] == "SURlagIV"
    n = 60 + 30 * g["nr"] + i % 4
    g["rowst"] = int(not lag)
    s = surs.system(c, i, g, n=n, rho=.3 if lag else 0., lam=0. if lag else .3, rowst=not lag)
    pos, kw = surs.arguments(s, g, i, base=0 if g["est"] == "SUR" else 1, ybase=None if g["est"] in ("SUR", "ThreeSLS") else 1 if lag else 0)
    nm = {}
    if i % 3:
        kw["name_ds"] = "homicides"
    nm["ds"] = kw.get("name_ds", "unknown")
    nm["w"] = "none"
    if g["est"] != "ThreeSLS":
        kw["w"] = s["w"]
        if i % 2:
            kw["name_w"] = "queen"
        nm["w"] = kw.get("name_w", "unknown")
    reg, exc = call(getattr(spreg, g["est"]), *pos, **kw)
    return {"op": g["est"], "cfg": g, "in": nm, "exc": exc, "obs": read(reg.summary) if reg is not None else {}}


def body(c):
    cfgs = c.generate("M35", invariants=["Complete", "Worded", "Telling", "TellingP"])
    cfgs.sort(key=lambda g: json.dumps(g, sort_keys=True))
    by = {}
    for g in cfgs:
        by.setdefault((g["est"], g["regi"], g["sep"], g["slx"] > 0), []).append(g)
    out = [g for k in sorted(by) for g in pick(c, by[k], 12 if QUICK else 90)]
    for g in out:
        if g["regi"] == 0:
            g["ri"] = []
    ev = pmap(lambda j: one(c, *j), list(enumerate(out)))
    cfgs = c.generate("M20", invariants=["Stacked"])
    out = []
    for est in ("PooledOLS", "PanelFE", "PanelRE", "GM_ErrorPooled", "GM_ErrorRE", "ML_ErrorPooled", "ML_ErrorFE", "ML_ErrorRE", "ML_LagFE", "ML_LagRE"):
        out += pick(c, [g for g in cfgs if g["est"] == est], 12 if QUICK else 60)
    ev += pmap(lambda j: panel(c, *j), list(enumerate(out)))
    cfgs = c.generate("M34", invariants=["EachOnce"])
    out = []
    for est in ("SUR", "ThreeSLS", "SURlagIV", "SURerrorGM", "SURerrorML"):
        out += pick(c, [g for g in cfgs if g["est"] == est], 8 if QUICK else 40)
    ev += pmap(lambda j: system(c, *j), list(enumerate(out)))
    c.validate("C35", [e for e in ev if e], timeout=840)


main("C35", body)
