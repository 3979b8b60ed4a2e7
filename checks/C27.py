"""Multipliers, impacts, filters, spatial lags and inverse products."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from regi import *
import panels
import scipy.sparse as sp


def weights(kind, n, rng, ids):
    """row-standardised weights; kind cycle: three groups that only point to the next one"""
    if kind != "cycle":
        return make_w(kind, n, rng, ids=ids, transform="r")
    from libpysal.weights import W
    ids = list(range(n)) if ids is None else ids
    g = rng.permutation(n) % 3
    a = np.zeros((n, n))
    for i in range(n):
        t = [j for j in range(n) if g[j] == (g[i] + 1) % 3]
        t = [int(v) for v in rng.choice(t, size=min(len(t), 1 + i % 3), replace=False)]
        a[i, t] = 1 / len(t)
    nb = {ids[i]: [ids[j] for j in range(n) if a[i, j]] for i in range(n)}
    wt = {ids[i]: [float(a[i, j]) for j in range(n) if a[i, j]] for i in range(n)}
    with quiet():
        w = W(nb, wt, id_order=ids, silence_warnings=True)
    return w, w.sparse.toarray()


def blocks(text):
    """the impacts of a printed summary"""
    out = []
    for b in text.split("Impacts computed using the '")[1:]:
        lines = b.splitlines()
        d = {"method": lines[0].split("'")[0], "rows": []}
        for l in lines[2:]:
            t = l.split()
            if len(t) != 4 or not re.match(r"^-?\d+\.\d{4}$", t[1]):
                break
            d["rows"].append([t[0]] + [enc(float(v)) for v in t[1:]])
        out.append(d)
    return out


def part(reg, text, W, names=None):
    m = reg.sp_multipliers
    names = names or list(reg.output["var_names"])
    rho = float(np.asarray(reg.rho).ravel()[0])
    return {"rho": enc(rho), "W": enc(W), "names": names, "betas": enc(np.asarray(reg.betas)),
            "keys": list(m) if m else [], "mult": None if m is None else {k: [enc(float(v)) for v in t] for k, t in m.items()}, "blocks": blocks(text)}


def fitted(c, i, g):
    import spreg
    est = g["est"]
    imp = {"all": "all", "pair": ["full", "simple"], "bogus": "exact", "Upper": "FULL"}.get(g["imp"], g["imp"])
    e = {"op": "fit", "cfg": g, "in": {}, "exc": None, "obs": {}}
    if est in ("ML_LagFE", "ML_LagRE"):
        s = panels.panel(c, i, dict(g, lay="long", flat=0, T=3), kinds=("rook", "knn"))
        reg, e["exc"] = call(getattr(spreg, est), s["a"]["y"], s["a"]["x"], w=s["w"], spat_impacts=imp, **s["a"]["kw"], **s["slxkw"])
        e["in"] = {"vars": [v for v in s["in"]["name_x"] if v], "labs": [], "near": 1}
        if reg is not None:
            e["obs"]["parts"] = [part(reg, reg.summary, s["W"], list(reg.name_x))]
        return e
    regimes = est.endswith("_Regimes")
    m = g["kx"] - g["cst"]
    cfg = dict(kx=g["kx"], const=[g["kx"]] if g["cst"] else [], ne=g["ne"], nq=g["ne"] + 1 if g["ne"] else 0, nr=2 + i % 2)
    if regimes:
        s = reg_scen(c, 27000 + i, cfg, n=int(48 + i % 9 + 22 * g["slx"] * g["sep"]), wt="r", wkind=["rook", "knn", "ring"][i % 3], kind=["int", "str", "float", "neg"][i % 4], rho=[.4, .6, -.3][i % 3])
    else:
        s = scen(c, 27000 + i, cfg, wt="r", wkind=["rook", "knn", "ring"][i % 3], rho=[.4, .6, -.3][i % 3])
    kw = dict(s["kw"], w=s["w"], spat_impacts=imp)
    if g["ne"]:
        kw.update(yend=s["yend"], q=s["q"])
    if g["slx"]:
        kw["slx_lags"] = g["slx"]
        if g["mask"]:
            kw["slx_vars"] = [bool(j % 2) for j in range(m)]
    if est.startswith("ML"):
        kw["method"] = ["full", "ord", "LU"][i % 3]
    e["in"] = {"vars": [v for v in s["name_x"] if v], "labs": s.get("labs", []), "near": 1}
    if regimes:
        with quiet():
            s["w"].transform = "r"
        kw.update(regimes=s["regimes"], regime_lag_sep=bool(g["sep"]), constant_regi="one" if g["one"] else "many", name_regimes="REG")
        if g["vary"]:
            kw["cols2regi"] = [bool((j + i // 3) % 2) for j in range(m + g["slx"] * (sum(kw["slx_vars"]) if g["mask"] else m))]
    reg, e["exc"] = call(getattr(spreg, est), s["y"], s["x"], **kw)
    if reg is None:
        return e
    if regimes and g["sep"]:
        W0, ri = s["W"] > 0, np.array(s["ri"])
        e["obs"]["parts"] = []
        for j, r in enumerate(sorted(set(s["ri"]))):
            A = s["W"][np.ix_(ri == r, ri == r)]
            A = A / np.where(A.sum(1) > 0, A.sum(1), 1)[:, None]
            sub = [v for k, v in reg.multi.items() if str(k) == s["labs"][j]]
            nm = getattr(sub[0], "name_z", None) or sub[0].name_x
            e["obs"]["parts"].append(part(sub[0], sub[0].other_mid, A, list(nm)))
    else:
        nm = reg.name_z if hasattr(reg, "name_z") else reg.name_x
        e["obs"]["parts"] = [part(reg, reg.summary, s["W"], list(nm))]
    return e


def one(c, i, g):
    from spreg import sputils as S, utils as U
    if g["op"] == "fit":
        return fitted(c, i, g)
    rng = c.sub(27500 + i)
    n = int(rng.integers(9, 18))
    ids = None if i % 2 else ["p%02d" % v for v in rng.permutation(n)]
    if g["op"] == "imult" and g["form"] == "Graph":
        ids = None
    w, W = weights(g["kind"], n, rng, ids)
    e = {"op": g["op"], "cfg": g, "in": {"W": enc(W)}, "exc": None, "obs": {}}
    rho = float(g.get("rho", 0))
    e["in"]["rho"] = enc(rho)
    if g["op"] == "spmult":
        m, e["exc"] = call(S.spmultiplier, w, np.float64(rho) if i % 2 else rho, method=g["method"])
        if m:
            e["obs"] = {k: enc(float(m[k])) for k in ("ati", "adi", "aii")}
            e["obs"].update(pow=int(m["pow"]), method=m["method"], warned=bool(m["warn"]))
        return e
    if g["op"] == "invprod":
        d = np.round(rng.normal(size=(n, g["cols"])) * 3, 2)
        kw = {"maxit": {}}.get("x", {})
        if g["maxit"]:
            kw["max_iterations"] = g["maxit"]
        wa = {"W": w, "csr": sp.csr_matrix(W), "dense": W}[g["form"]]
        before = d.copy()
        r, e["exc"] = call(U.inverse_prod, wa, d, rho, post_multiply=bool(g["post"]), inv_method=g["method"], threshold=float(g["thr"]), **kw)
        e["in"]["d"] = enc(before)
        if r is not None:
            e["obs"]["r"] = enc(np.asarray(r))
        return e
    if g["op"] == "filter":
        d = np.round(rng.normal(size=(n * g["T"], g["cols"])) * 3, 2)
        r, e["exc"] = call(U.get_spFilter, w if g["form"] == "W" else w.sparse, rho, d)
        e["in"]["d"] = enc(d)
        if r is not None:
            e["obs"]["r"] = enc(np.asarray(r))
        return e
    if g["op"] == "lags":
        d = np.round(rng.normal(size=(n * g["T"], g["cols"])) * 3, 2)
        e["in"]["d"] = enc(d)
        if g["split"]:
            r, e["exc"] = call(U.get_lags_split, w, d, g["p"], g["split"])
            if r:
                e["obs"] = {"lo": enc(np.asarray(r[0])), "hi": enc(np.asarray(r[1]))}
        else:
            r, e["exc"] = call(U.get_lags, w, d, g["p"], **({"panel": True} if g["T"] > 1 or i % 2 else {}))
            if r is not None:
                e["obs"]["r"] = enc(r.toarray() if sp.issparse(r) else np.asarray(r))
        return e
    if g["model"] in ("kernel", "power", "exponential"):
        W = np.round(W * rng.uniform(.5, 3, size=W.shape), 2)
        if g["model"] == "kernel":
            W = W + np.diag(np.round(rng.uniform(.5, 1, size=n), 2))
        from libpysal.weights import W as LW
        nb = {v: [w.id_order[k] for k in range(n) if W[j, k]] for j, v in enumerate(w.id_order)}
        wt = {v: [float(W[j, k]) for k in range(n) if W[j, k]] for j, v in enumerate(w.id_order)}
        with quiet():
            w = LW(nb, wt, id_order=list(w.id_order), silence_warnings=True)
        e["in"]["W"] = enc(W)
    if g["model"] == "lag" and rho == 2.0:
        rho = .4
        e["in"]["rho"] = enc(rho)
    if g["form"] == "Graph":
        from libpysal.graph import Graph
        with quiet():
            wa = Graph.from_W(w)
    else:
        wa = {"W": w, "csr": sp.csr_matrix(W), "dense": W.copy()}[g["form"]]
    names = [int(v) for v in rng.permutation(n) + 100]
    ida = {"none": None, "array": np.array(names).reshape(-1, 1), "series": pd.Series(names, index=np.arange(n)[::-1], name="TRACT"),
           "frame": pd.DataFrame({"TRACT": names}, index=np.arange(n) + (3 if i % 2 else 0))}[g["id"]]
    e["in"]["idname"] = "ID" if g["id"] in ("none", "array") else "TRACT"
    e["in"]["ids"] = list(range(n)) if g["id"] == "none" else names
    r, e["exc"] = call(S.i_multipliers, wa, coef=rho, model=g["model"], id=ida)
    if r is not None:
        num = lambda col: enc(np.asarray(r[[col]], float))
        e["obs"] = {"cols": [str(v) for v in r.columns], "n": len(r), "ids": [int(v) if v == v else -1 for v in r.iloc[:, 0]],
                    "direct": num("Direct"), "eof": num("EofNbrs"), "eon": num("EonNbrs")}
    return e


def body(c):
    cfgs = c.generate("M27", invariants=["NothingLeft"])
    out = []
    for op, q, t in (("fit", 360, 2400), ("spmult", None, None), ("invprod", 200, None), ("filter", 80, None), ("lags", 80, None), ("imult", 150, None)):
        out += pick(c, [g for g in cfgs if g["op"] == op], q if QUICK else t)
    c.validate("C27", pmap(lambda j: one(c, *j), list(enumerate(out))), timeout=840)


main("C27", body)
