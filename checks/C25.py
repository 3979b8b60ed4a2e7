"""Malformed calls are refused; no call writes to its arguments."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from calls import *


def watched(f, kw):
    before = {k: digest(v) for k, v in kw.items()}
    reg, exc = call(f, **kw)
    return reg, exc, [{"name": k, "before": before[k], "after": digest(v)} for k, v in kw.items()]


def one(c, i, g):
    import spreg
    g = dict(g)
    bad = g["bad"]
    name, kw, roles = valid(c, i, g)
    kw["vm"] = True
    if family(g["est"]) == "system":
        if g["est"] == "ThreeSLS":
            del kw["vm"]
    for k, b in enumerate(bad):
        kw = malform(c, i + k, kw, roles, *b)
        if kw is None:
            return None
    f = getattr(spreg, name)
    reg, exc, args = watched(f, kw)
    o = {"args": args}
    if not bad:
        r2, exc2, _ = watched(f, kw)
        o["exc2"] = exc2
        if reg is not None and r2 is not None:
            o["betas"], o["betas2"] = [enc(np.vstack([np.asarray(v, float).reshape(-1, 1) for v in everything(r)])) for r in (reg, r2)]
    return {"op": "call", "cfg": {k: v for k, v in g.items()}, "in": {}, "exc": exc, "obs": o}


def everything(r):
    b = next(getattr(r, k) for k in ("betas", "bML", "bGM", "bSUR", "b3SLS") if hasattr(r, k))
    return [b[k] for k in sorted(b)] if isinstance(b, dict) else [b]


def functions(c, i):
    """the public functions that are not estimators"""
    import spreg
    from spreg import dgp
    s = scen(c, 7000 + i, {"kx": 2, "ne": 1, "nq": 2}, n=36, wt="r", given=True, wkind=["rook", "gen"][i % 2])
    rng = c.sub(7100 + i)
    y, x, w = s["y"], s["x"], s["w"]
    d = dict(y=y, x=x, w=w, name_y="why", name_x=["a", "b"])
    nb = {"name_x": list(s["kw"].get("name_x") or ["a", "b"])}
    reg = spreg.OLS(y, x, w=w, spat_diag=True)
    lag = spreg.GM_Lag(y, x, w=w)
    iv = spreg.TSLS(y, x, s["yend"], s["q"])
    u = reg.u
    b, lam, rho = np.array([[1.], [.5], [-.4]]), .3, .4
    wx = lambda: libw(w, x)
    co = rng.uniform(0, 9, size=(36, 2)).round(2)
    import spreg.sputils as SP
    import spreg.utils as U
    import scipy.sparse as sps
    out = [("stge_classic", spreg.stge_classic, d), ("stge_kb", spreg.stge_kb, d), ("gets_gns", spreg.gets_gns, d), ("gets_sdm", spreg.gets_sdm, d),
           ("dgp_lag", dgp.dgp_lag, dict(u=u, xb=x @ b[1:], w=w, rho=rho)), ("dgp_errproc", dgp.dgp_errproc, dict(u=u, w=w, lam=lam)),
           ("dgp_spdurbin", dgp.dgp_spdurbin, dict(u=u, xb=x @ b[1:], wxg=x @ b[1:], w=w, rho=rho)),
           ("make_xb", dgp.make_xb, dict(x=x, beta=[1., .5, -.4])), ("make_wx", dgp.make_wx, dict(x=x, w=w, o=2)), ("make_error", dgp.make_error, dict(rng=np.random.default_rng(3), n=36)),
           ("vif", spreg.vif, dict(reg=reg)), ("white", spreg.white, dict(reg=reg)), ("jarque_bera", spreg.jarque_bera, dict(reg=reg)),
           ("LMtests", spreg.LMtests, dict(ols=reg, w=w)), ("MoranRes", spreg.MoranRes, dict(ols=reg, w=w, z=True)), ("AKtest", spreg.AKtest, dict(iv=iv, w=w)),
           ("LMtests_WX", spreg.diagnostics_sp.lm_wx, dict(reg=reg, w=w)) if hasattr(spreg.diagnostics_sp, "lm_wx") else None,
           ("get_lags", U.get_lags, dict(w=w, x=x, w_lags=2)), ("set_endog", U.set_endog, dict(y=y, x=np.hstack([np.ones((36, 1)), x]), w=w, yend=s["yend"], q=s["q"], w_lags=2, lag_q=True)),
           ("inverse_prod", U.inverse_prod, dict(w=w, data=x, scalar=.3)), ("power_expansion", U.power_expansion, dict(w=w, data=x, scalar=.3)),
           ("get_spFilter", U.get_spFilter, dict(w=w, lamb=.3, sf=x)),
           ("Skater_reg", lambda **k: spreg.Skater_reg().fit(**k), dict(n_clusters=2, W=w, data=x, quorum=8, data_reg={"reg": spreg.OLS, "y": y, "x": x})),
           ("spdot", SP.spdot, dict(a=sps.csr_matrix(x), b=x.T)), ("sphstack", SP.sphstack, dict(a=sps.csr_matrix(x), b=x)), ("spmultiply", SP.spmultiply, dict(a=sps.csr_matrix(x), b=sps.csr_matrix(x)))]
    ev = []
    for nm, f, kw in [q for q in out if q]:
        plain = {k: v for k, v in kw.items() if not hasattr(v, "betas") and not isinstance(v, np.random.Generator)}
        deep = {k + "." + a: q for k, v in kw.items() if hasattr(v, "betas") for a, q in (("y", v.y), ("x", v.x), ("betas", v.betas), ("u", v.u))}
        before = {k: digest(v) for k, v in {**plain, **deep}.items()}
        r, exc = call(f, **kw)
        ev.append({"op": "function", "cfg": {"op": nm, "i": i}, "in": {}, "exc": exc,
                   "obs": {"args": [{"name": k, "before": before[k], "after": digest(v)} for k, v in {**plain, **deep}.items()]}})
    return ev


def body(c):
    cfgs = c.generate("M25", invariants=["OnlyWellFormed", "NoMasking", "UserWrites"], constants="CONSTANT Depth = %d" % (1 if QUICK else 2))
    cfgs.sort(key=lambda g: json.dumps(g, sort_keys=True))
    by, out, rng = {}, [], c.sub(990)
    for g in cfgs:
        bads = sorted(b.split(":") for b in g.pop("bads"))
        out.append({**g, "bad": []})
        by.setdefault((g["est"], g["regi"]), []).append((g, bads))
    for k in sorted(by):
        # every malformation of every estimator, on a call that has it
        todo = {}
        for g, bads in by[k]:
            for b in bads:
                todo.setdefault(tuple(b), []).append(g)
        for b in sorted(todo):
            for g in pick(c, todo[b], 1 if QUICK else 4):
                out.append({**g, "bad": [list(b)]})
        for g, bads in by[k] if not QUICK else ():
            for _ in range(6):      # two at once
                p = [bads[j] for j in rng.permutation(len(bads))[:2]]
                if p[0][0] != p[1][0]:
                    out.append({**g, "bad": p})
    ev = pmap(lambda j: one(c, *j), list(enumerate(out)))
    for e in pmap(lambda i: functions(c, i), range(2 if QUICK else 8)):
        ev += e
    c.validate("C25", [e for e in ev if e], timeout=840)


main("C25", body)
