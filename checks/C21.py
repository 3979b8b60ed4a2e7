"""Maximum likelihood panel models."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from panels import *

NEW = {"Panel_FE_Lag": "ML_LagFE", "Panel_FE_Error": "ML_ErrorFE", "Panel_RE_Lag": "ML_LagRE", "Panel_RE_Error": "ML_ErrorRE"}


def obs(reg):
    o = {"betas": enc(reg.betas), "u": enc(reg.u), "predy": enc(reg.predy), "vm": enc(np.asarray(reg.vm, float))}
    for k in ("sig2", "n", "k", "logll", "aic", "schwarz", "mu_i", "mean_mu_i", "e_filtered", "predy_e", "e_pred", "vm1", "varb", "phi", "sig2_u"):
        if hasattr(reg, k):
            o[k] = enc(np.asarray(getattr(reg, k), float))
    o["name_x"] = list(reg.name_x)
    if hasattr(reg, "output"):
        o["table"] = table(reg)
    return o


def spy():
    """Records the coefficient every power expansion is asked for: what a refused call had estimated."""
    import spreg.utils as U
    rho = []
    real = getattr(spy, "real", U.power_expansion)
    spy.real = real

    def rec(w, data, scalar, *a, **k):
        rho.append(float(np.asarray(scalar).ravel()[0]))
        return real(w, data, scalar, *a, **k)
    U.power_expansion = rec
    return rho


def dec(m):
    return np.array([[float(v) for v in r] for r in m["$m"]])


def collinear(s, g):
    W, X, T = dec(s["in"]["W"]), dec(s["in"]["x"]), g["T"]
    B = np.kron(np.eye(T), W)
    Z = [X]
    for _ in range(g["slx"]):
        Z.append(B @ Z[-1])
    D = np.kron(np.eye(T) - np.ones((T, T)) / T, np.eye(len(W)))
    v = np.linalg.svd(D @ np.hstack(Z), compute_uv=False)
    return v[-1] < 1e-6 * v[0]


def one(c, i, g):
    import spreg
    from spreg import diagnostics_panel as DP
    g = dict(g)
    est = g["est"]
    re_err = est in ("ML_ErrorRE", "Panel_RE_Error", "HausmanError")
    s = panel(c, i, g, kinds=("sym",) if est == "Panel_RE_Error" else ("sym", "rook", "sym", "knn") if re_err else ("rook", "knn", "gen", "sym"))
    g["wk"] = s["kind"]
    if collinear(s, g):     # within data without full rank identify nothing
        return None
    e = {"op": est, "cfg": g, "in": s["in"], "exc": None, "obs": {}}
    a = s["a"]
    kw = dict(s["slxkw"])
    if i % 4 == 2:
        kw["vm"] = True
    if est.startswith("Hausman"):
        fe, re = (spreg.ML_LagFE, spreg.ML_LagRE) if est == "HausmanLag" else (spreg.ML_ErrorFE, spreg.ML_ErrorRE)
        f, e1 = call(fe, a["y"], a["x"], w=s["w"], **a["kw"])
        r, e2 = call(re, a["y"], a["x"], w=s["w"], **a["kw"])
        if e1 or e2:
            e["exc"] = e1 or e2
            return e
        h, e["exc"] = call(DP.panel_Hausman, f, r)
        if e["exc"]:
            return e
        o = {"fe": obs(f), "re": obs(r), "h": enc(float(h[0])), "p": enc(float(h[1]))}
        o["re"]["k"] = int(r.k)
        if est == "HausmanLag":     # coefficients of all of x and the spatial lag
            pass
        e["obs"] = o
        return e
    if est == "ML_ErrorPooled" and i % 3 == 0:
        kw["nonspat_diag"] = False
    if est in ("ML_LagFE", "ML_LagRE"):
        kw["spat_impacts"] = ["simple", None, "all", "full"][i % 4]
    f = getattr(spreg, est)
    rho = spy()
    reg, e["exc"] = call(f, a["y"], a["x"], w=s["w"], **a["kw"], **kw)
    if reg is None:
        e["rho0"] = [enc(float(r)) for r in rho[-1:]]
        return e
    e["obs"] = obs(reg)
    if est in NEW:
        r, exc = call(getattr(spreg, NEW[est]), a["y"], a["x"], w=s["w"], **a["kw"])
        if exc:
            e["exc"] = exc
            return e
        e["ref"] = dict(obs(r), names=[{"sigma2_u": "sig2_u"}.get(v, v) for v in r.name_x])
        r, exc = call(f, s["b"]["y"], s["b"]["x"], w=s["w"], **s["b"]["kw"])
        e["alt"] = {"exc": exc} if exc else {"exc": None, "betas": enc(r.betas)}
    else:
        e["alt"] = alt(f, s, **kw)
    return e


def body(c):
    cfgs = c.generate("M20", invariants=["Stacked", "EveryCellOnce", "LagInPeriod", "WithinUnit"])
    out = []
    for est, q, t in (("ML_ErrorPooled", 60, 400), ("ML_ErrorFE", 60, 400), ("ML_LagFE", 60, 400), ("ML_LagRE", 60, 400), ("ML_ErrorRE", 80, 400),
                      ("Panel_FE_Lag", 20, 100), ("Panel_FE_Error", 20, 100), ("Panel_RE_Lag", 20, 100), ("Panel_RE_Error", 20, 100), ("HausmanLag", 20, 100), ("HausmanError", 20, 100)):
        out += pick(c, [g for g in cfgs if g["est"] == est], q if QUICK else t)
    c.validate("C21", [e for e in pmap(lambda j: one(c, *j), list(enumerate(out))) if e], timeout=840)


main("C21", body)
