"""Specification searches, driven through every branch by thresholds between the p-values."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from scen import *

COEF = {"none": (0, 0, 0), "lag": (.5, 0, 0), "error": (0, .6, 0), "sarsar": (.4, .4, 0), "slx": (0, 0, 1), "sdm": (.4, 0, 1), "slxerr": (0, .6, 1), "gns": (.4, .4, 1), "cfr": (.5, 0, -.5)}


def data(c, g):
    key = sorted(COEF).index(g["dgp"]) * 16 + g["strong"] * 5 + g["kx"] + 997 * g["draw"]
    rng = c.sub(24000 + key)
    n = int(rng.integers(36, 55))
    x = np.round(rng.normal(size=(n, g["kx"])) * 2, 2)
    w, W = make_w(["rook", "knn", "ring"][key % 3], n, rng, ids=None if key % 2 else ["r%02d" % v for v in rng.permutation(n)], transform="r")
    rho, lam, gam = np.array(COEF[g["dgp"]]) * [1, 1.45, 1.9][g["strong"]] * [1, 1, .6][g["strong"]] if g["dgp"] == "cfr" else np.array(COEF[g["dgp"]]) * [.7, 1.2, 1.5][g["strong"]]
    rho, lam = [float(np.clip(v, -.95, .97)) for v in (rho, lam)]
    b = np.arange(1, g["kx"] + 1) / 2.0
    u = np.linalg.solve(np.eye(n) - lam * W, rng.normal(size=(n, 1)) * [1, 1, 1.6][g["strong"]])
    gam = -rho * b if g["dgp"] == "cfr" else gam * b[::-1]
    y = np.linalg.solve(np.eye(n) - rho * W, (x @ b + (W @ x) @ gam).reshape(-1, 1) + 1 + u)
    return np.round(y, 4), x, w


def fits(y, x, w, kw, wl):
    """every model a search may end with, on its own; None where it cannot be fitted"""
    import spreg
    lag = lambda s: call(spreg.GM_Lag, y, x, w=w, slx_lags=s, w_lags=wl, hard_bound=True, **kw)[0]
    err = lambda s, a: call(spreg.GMM_Error, y, x, w=w, slx_lags=s, hard_bound=True, **dict(kw, **({"add_wy": True, "w_lags": wl} if a else {})))[0]
    return {"OLS": call(spreg.OLS, y, x, w=w, spat_diag=True, **kw)[0], "SLX": call(spreg.OLS, y, x, w=w, slx_lags=1, spat_diag=True, **kw)[0],
            "LAG": lag(0), "SDM": lag(1), "ERROR": err(0, False), "SLX-ERR": err(1, False), "SARSAR": err(0, True), "GNS": err(1, True)}


def names(r):
    return [str(v) for v in (getattr(r, "name_z", None) or r.name_x)]


def one(c, i, g):
    import spreg, contextlib, io
    y, x, w = data(c, g)
    kx = g["kx"]
    kw = {"name_y": "why", "name_x": ["ex%d" % j for j in range(kx)], "name_w": "wts"} if g["names"] else {}
    f = fits(y, x, w, kw, g["wl"])
    ak = lambda m: (lambda r: "fail" if r is None else float(r.p))(None if f[m] is None else call(spreg.AKtest, f[m], w, case="gen")[0])
    lm = lambda r, m: {"lag": r.lm_lag[1], "err": r.lm_error[1], "rlag": r.rlm_lag[1], "rerr": r.rlm_error[1], "ak": ak(m)}
    ps = lambda m: "fail" if f[m] is None else np.array([t[1] for t in f[m].z_stat[1 + kx:]], float)
    o, s = f["OLS"], f["SLX"]
    t = {"a": lm(o, "LAG"), "b": lm(s, "SDM"), "wx": o.lm_wx[1], "rwx": o.rlm_wx[1], "sd": o.lm_spdurbin[1], "rdl": o.rlm_durlag[1],
         "gns": ps("GNS"), "sdm": ps("SDM"), "slxerr": ps("SLX-ERR"), "sarsar": ps("SARSAR"),
         "cfh": "fail" if f["SDM"] is None else f["SDM"].cfh_test[1], "aksdm": ak("SDM")}
    use = {"classic": ["a"], "kb": ["sd", "rwx", "rdl"], "pre": ["wx", "rwx", "a", "b"], "gns": ["gns", "sdm", "slxerr", "sarsar", "cfh"],
           "sdm": ["sdm", "cfh", "aksdm", "a", "b"]}[g["search"]]
    ps_ = []
    for k in use:
        v = list(t[k].values()) if isinstance(t[k], dict) else [t[k]]
        for u in v:
            if not isinstance(u, str):
                ps_ += [float(z) for z in np.asarray(u).ravel()]
    if not np.isfinite(ps_).all():
        return None
    ps_ = sorted(ps_ + [0.0, 1.0])
    gaps = [(a + b) / 2 if a > 0 else b / 2 for a, b in zip(ps_, ps_[1:]) if b - a > 1e-12 + 1e-6 * b]
    p = 0.01 if g["thr"] == 9 else gaps[int(round(g["thr"] / 8 * (len(gaps) - 1)))]
    if min(abs(p - v) for v in ps_) < 1e-6 * p:
        return None
    e = {"op": "search", "cfg": g, "exc": None, "obs": {}, "in": {"p": enc(p), "t": enc(t), "fits": {}}}
    for k, r in f.items():
        e["in"]["fits"][k] = "fail" if r is None else {"cls": type(r).__name__, "betas": enc(r.betas), "vm": enc(np.asarray(r.vm)), "names": names(r)}
    fn = getattr(spreg, {"classic": "stge_classic", "kb": "stge_kb", "pre": "stge_pre", "gns": "gets_gns", "sdm": "gets_sdm"}[g["search"]])
    title = {"classic": "STGE-Classic", "kb": "STGE-KB", "pre": "STGE-Pre", "gns": "GETS-GNS", "sdm": "GETS-SDM"}[g["search"]]
    mp = bool((i // 3) % 4)
    buf = io.StringIO()

    def go():
        with contextlib.redirect_stdout(buf):
            return fn(y, x, w, w_lags=g["wl"], p_value=p, finmod=bool(g["fin"]), mprint=mp, **kw)
    r, e["exc"] = call(go)
    if r is None:
        return e
    text = buf.getvalue()
    res, m = r
    line = "Model selected by %s: %s" % (title, res)
    obs = {"n": len(r), "result": str(res), "model": "none" if m is False else type(m).__name__,
           "printed": "no" if not text.strip() else "yes", "shown": bool(text == "") if not mp else bool(line in text and (m is False or m.summary in text))}
    if not mp and m is not False:
        obs["printed"] = "yes" if not text.strip() else "noisy"
    if m is not False:
        obs.update(betas=enc(m.betas), vm=enc(np.asarray(m.vm)), names=names(m))
    e["obs"] = obs
    return e


def body(c):
    cfgs = c.generate("M24", invariants=["Total", "OnlyFailure", "NothingFound", "Warranted", "WxKept"])
    out = []
    for s in ("classic", "kb", "pre", "gns", "sdm"):
        out += pick(c, [g for g in cfgs if g["search"] == s], 260 if QUICK else 2500)
    ev = [e for e in pmap(lambda j: one(c, *j), list(enumerate(out))) if e]
    c.validate("C24", ev, timeout=840)


main("C24", body)
