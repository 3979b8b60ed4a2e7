"""Coefficient tables, labels and printed summaries."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from catalog import *
import spreg


def lnames(m, k):
    v = get(m, k)
    return list(v) if isinstance(v, (list, tuple)) else []


def one(c, i, g):
    name, kw, s = build(c, i, g)
    if g["est"] == "OLS" and not g["regi"]:
        kw.update(spat_diag=bool(i % 2), moran=bool(i % 2), white_test=bool(i % 3), vif=i % 4 == 0)
    elif g["est"] in ("OLS", "TSLS", "Probit", "GM_Lag", "ML_Lag"):
        kw.update(spat_diag=bool(i % 2))
    kw["vm"] = bool(i % 3)
    reg, exc = run(name, kw)
    o = {}
    if reg is not None:
        o = snap(reg, ["betas", "vm", "predy", "output"])
        o["names"] = coef_names(reg)
        p = printed(reg.summary, g["tex"])
        rows = [r for q in p for r in q["rows"]]
        o["p_names"] = [r[0] for r in rows]
        v = np.array([[float(x) for x in r[1:]] + [np.nan] * (5 - len(r)) for r in rows]).reshape(len(rows), -1)
        # rows without inference show the coefficient only
        for a, cn in enumerate(("std_err", "zt_stat", "prob")):
            nan = o["output"].get(cn + "_nan", [0] * len(rows))
            for j, z in enumerate(nan[:len(rows)]):
                if z and np.isnan(v[j, 1 + a]):
                    v[j, 1 + a] = 0
        o["p_vals"] = enc(v)
        parts = list(reg.multi.values()) if len(p) > 1 else [reg]
        o["heads"] = []
        for q in p:
            h = q["head"]
            d = {"n": int(h.get("Number of Observations", -1)), "k": int(h.get("Number of Variables", -1)), "df": int(h.get("Degrees of Freedom", -1))}
            if "Mean dependent var" in h:
                d.update(mean=enc(float(h["Mean dependent var"])), sd=enc(float(h["S.D. dependent var"])))
            o["heads"].append(d)
        o["errors"] = [q.get("errors", []) for q in p]
        o["kernels"] = [q.get("kernel", "none") for q in p]
        o["name_gwk"] = get(reg, "name_gwk") or "none"
        squash = lambda l: [re.sub(r"\s+", "", v) for v in l]
        o["sec"] = sections(reg.summary)
        o["sq_names"] = squash(o["names"])
        o["q"], o["end"] = [squash(lnames(m, "name_q")) for m in parts], [squash(lnames(m, "name_yend")) for m in parts]
        o["want"] = {"vm": int(kw["vm"]), "vif": int(bool(kw.get("vif"))), "tex": int(bool(g["tex"]))}
        o["vif"] = [[squash([n])[0], enc(np.array([[float(a) for a in r]]))] for n, r in zip(reg.name_x[1:], spreg.diagnostics.vif(reg)[1:])] if kw.get("vif") else []
        o["shown"] = [sorted(q["head"]) + q["said"] for q in p]
        df = lambda l: [{"name": t[0], "df": int(t[1])} for t in l if t[1].lstrip("-").isdigit()]
        o["tests"], o["global"] = [df(q["tests"]) for q in p], df(p[-1]["global"])
        o["want"].update({k: int(bool(kw.get(k))) for k in ("spat_diag", "moran")})
        o["pairs"] = [r for q, m in zip(p, parts) for r in pairs(m, q)] + pairs(reg, {"head": {}, "tests": p[-1]["global"]})
    return {"op": name, "cfg": g, "in": s["in"], "exc": exc, "obs": o}


def body(c):
    cfgs = c.generate("M05", invariants=["Injective", "NoConstant", "Count", "Blocks"])
    cfgs.sort(key=lambda g: json.dumps(g, sort_keys=True))
    by = {}
    for g in cfgs:
        by.setdefault((g["est"], g["regi"], g["sep"], g["slx"] > 0, g["sep"] and not g["one"] and g["vk"] == "all"), []).append(g)
    out = [g for k in sorted(by) for g in pick(c, by[k], 14 if QUICK else 100)]
    for g in out:
        if g["regi"] == 0:
            g["ri"] = []
    c.validate("C05", [e for e in pmap(lambda j: one(c, *j), list(enumerate(out))) if e], timeout=840)


main("C05", body)
