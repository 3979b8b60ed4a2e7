"""Panel estimators: pooled, within, random effects, GM error; LM tests."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from panels import *


def one(c, i, g):
    import spreg
    from spreg import diagnostics_panel as DP
    g = dict(g)
    s = panel(c, i, g)
    est = g["est"]
    g["wk"] = s["kind"]
    e = {"op": est, "cfg": g, "in": s["in"], "exc": None, "obs": {}}
    a = s["a"]
    if est == "LMtests":
        for t in ("LMlag", "LMerror", "rLMlag", "rLMerror"):
            r, exc = call(getattr(DP, "panel_" + t), a["y"], a["x"], s["w"])
            if exc:
                e["exc"] = exc
                return e
            e["obs"][t] = enc(np.asarray(r, float).reshape(-1, 1))
        return e
    kw = dict(s["slxkw"])
    extra = {}
    if est == "PooledOLS":
        if g["opt"] == 1:
            kw["robust"] = "white"
        tests = [["LMJ", "LM1", "LM2"], ["LM1"], ["LM2"], ["LMJ"], "all", None, ["LM2", "LMC_spatial"], ["LMC_RE", "LM1"]][i % 8]
        kw["spat_diag"] = tests is not None
        if tests is not None and not (i % 8 == 0):
            kw["BSK_list"] = tests
        if i % 3 == 0:
            kw["nonspat_diag"] = True
        s["in"]["bsk"] = ["none"] if tests is None else ["LM1", "LM2", "LMJ", "LMC_spatial", "LMC_RE"] if tests == "all" else tests
    elif est == "PanelRE":
        kw["spat_diag"] = bool(i % 3)
        s["in"]["bsk"] = ["LMC_spatial"] if i % 3 else ["none"]
    elif est == "GM_ErrorPooled":
        extra = [{}, {"max_iter": 4}, {"step1c": True}][g["opt"]]
        kw.update(extra, nonspat_diag=bool(i % 3))
        s["in"]["bsk"] = ["LMC_RE"] if i % 3 else ["none"]
    elif est in ("GM_ErrorRE", "GM_KKP"):
        kw["full_weights"] = g["opt"] == 1
    if i % 4 == 2:
        kw["vm"] = True
    f = getattr(spreg, est)
    reg, e["exc"] = call(f, a["y"], a["x"], w=s["w"], **a["kw"], **kw)
    if reg is None:
        return e
    bx = np.asarray(reg.x, float)
    if est == "PanelRE" and np.linalg.cond(bx.reshape(s["T"], s["n"], -1).mean(0)) > 1e7:
        return None     # the between regression is not identified (e.g. complete components of W: W^2 x is a combination of x and Wx)
    o = {"betas": enc(reg.betas), "u": enc(reg.u), "predy": enc(reg.predy), "vm": enc(np.asarray(reg.vm, float)), "bsk": bsk(reg)}
    for k in ("sig2", "n", "t", "fixed_effects", "mu_i", "mean_mu_i", "xtxi", "sigma2_epsilon", "sigma2_mu", "theta", "hausman_stat", "hausman_p", "hausman_df", "e_filtered"):
        if hasattr(reg, k):
            o[k] = enc(np.asarray(getattr(reg, k), float))
    o["negwarn"] = int("variance is negative" in str(getattr(reg, "warning", "")))
    o["name_x"] = list(reg.name_x)
    if hasattr(reg, "output"):
        o["table"] = table(reg)
        e["alt"] = alt(f, s, **kw)
    e["obs"] = o
    if est == "PooledOLS":
        need = s["in"]["bsk"]
        if "LMC_spatial" in need:
            # random effects residuals, themselves decided on PanelRE events
            r = spreg.PanelRE(reg.y, reg.x, s["w"], spat_diag=False)
            s["in"]["reu"] = enc(r.y - r.x @ r.betas)
        if "LMC_RE" in need:
            with quiet():
                r = spreg.panel.BaseML_ErrorPooled(reg.y, reg.x, s["w"])
            s["in"].update(semu=enc(r.u), semlam=enc(float(r.betas[-1, 0])))
    if est == "GM_ErrorPooled":
        import libpysal, scipy.sparse as sp
        wb = libpysal.weights.WSP(sp.kron(sp.identity(s["T"]), s["w"].sparse, format="csr")).to_W(silence_warnings=True)
        r, exc = call(spreg.GM_Error_Het, np.asarray(reg.y), np.asarray(reg.x)[:, 1:], w=wb, **extra)
        if exc:
            e["exc"] = exc
            return e
        e["ref"] = {"betas": enc(r.betas), "u": enc(r.u), "predy": enc(r.predy), "vm": enc(r.vm), "e_filtered": enc(r.e_filtered)}
    return e


def body(c):
    cfgs = c.generate("M20", invariants=["Stacked", "EveryCellOnce", "LagInPeriod", "WithinUnit"])
    out = []
    for est, q, t in (("PooledOLS", 160, 600), ("PanelFE", 100, 500), ("PanelRE", 120, 600), ("GM_ErrorPooled", 80, 400), ("GM_ErrorRE", 100, 500), ("GM_KKP", 60, None), ("LMtests", 60, None)):
        out += pick(c, [g for g in cfgs if g["est"] == est], q if QUICK else t)
    c.validate("C20", [v for v in pmap(lambda j: one(c, *j), list(enumerate(out))) if v], timeout=840)


main("C20", body)
