"""Endogenous regimes: partition, number of regimes and the model reported."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from catalog import *
from maps import graph
import re


def optim(c, i, g):
    import spreg
    s = [float(v) for v in g["s"]]
    if i % 3 == 1:
        rng = c.sub(32500 + i)
        s = [float(v) for v in np.round(np.concatenate([[200.0], 200.0 - np.cumsum(rng.exponential(10 * .7 ** np.arange(len(s) - 1)))]), 3)]
    elif i % 3 == 2:
        rng = c.sub(32500 + i)
        m = int(rng.integers(4, 34))
        s = sorted((float(v) for v in np.round(rng.exponential(30, m) + 5, 2)), reverse=True)
    w = g["w"] if g["w"] < len(s) else 0
    k, exc = call(spreg.optim_k, list(s) if i % 2 else np.array(s), **({"window_size": w} if w else {}))
    return {"op": "optim", "cfg": dict(g, op="optim"), "in": {"s": [enc(v) for v in s], "w": w}, "exc": exc, "obs": {} if exc else {"k": int(k)}}


def fit(c, i, g):
    import spreg, warnings
    from libpysal.weights import W
    rng = c.sub(32000 + i)
    n = g["n"]
    E = graph(g["kind"], n, rng)
    ids = list(range(n)) if g["opt"] != "ids" else ["u%02d" % v for v in rng.permutation(n)]
    nb = {v: [] for v in ids}
    for a, b in E:
        nb[ids[a]].append(ids[b]); nb[ids[b]].append(ids[a])
    with quiet():
        w = W(nb, {k: [float(1 + (i % 2) * j) for j in range(len(v))] for k, v in nb.items()}, id_order=ids, silence_warnings=True)
        w.transform = g["wt"]
    A = w.sparse.toarray()
    x = np.round(rng.normal(size=(n, g["kx"])) * [2, 1][:g["kx"]], 3)
    q = np.round(rng.normal(size=(n, 2)) * 2, 3)
    ev = rng.normal(size=(n, 1))
    ye = np.round(1.2 * q[:, :1] - .7 * q[:, 1:] + rng.normal(size=(n, 1)) + .5 * ev, 3)
    half = (x[:, :1] > 0) * 2.0 + (np.arange(n)[:, None] > n / 2) * 1.5
    y = np.round(x.sum(1, keepdims=True) * (1 + half) + ev * .5 + half + (ye if g["cls"] == "TSLS" else 0), 3)
    quorum = g["quorum"] if g["quorum"] > 0 else max(30, 10 * (g["kx"] + 1))
    X = x
    if g["opt"] == "const":
        X = np.hstack([x[:, :1], np.full((n, 1), 3.0), x[:, 1:]])
    kw = dict(y=y, x=X, w=w)
    if g["cls"] == "TSLS":
        kw.update(yend=ye, q=q)
    if g["opt"] in ("names", "const"):
        kw.update(name_y="why", name_x=["v%d" % j for j in range(X.shape[1])])
        if g["cls"] == "TSLS":
            kw.update(name_yend=["en"], name_q=["i1", "i2"])
    if g["opt"] == "pandas":
        kw.update(y=pd.Series(y[:, 0], name="PY"), x=pd.DataFrame(X, columns=["P%d" % j for j in range(X.shape[1])]))
    if g["opt"] == "sig2n_k":
        kw["sig2n_k"] = g["cls"] != "OLS"
    if g["opt"] == "white":
        kw["robust"] = "white"
    if g["opt"] == "vm":
        kw["vm"] = True
    if g["opt"] == "spat":
        kw["spat_diag"] = True
    own = {"quorum": g["quorum"], "trace": bool(g["trace"])}
    if g["quorum"] < 0:
        del own["quorum"]
    if g["trace"] and i % 2:
        del own["trace"]
    if g["k"]:
        own["n_clusters"] = g["k"]
    if g["opt"] == "regi_args":            # not the endogenous estimators' to change
        own.update(constant_regi="one", cols2regi=[False] * X.shape[1])
    cp = lambda d: {k: (v.copy() if isinstance(v, (np.ndarray, pd.DataFrame, pd.Series)) else list(v) if isinstance(v, list) else v) for k, v in d.items()}
    kept = cp(kw)
    reg, exc = call(getattr(spreg, g["cls"] + "_Endog_Regimes"), **kw, **own)
    e = {"op": "fit", "cfg": g, "exc": exc, "obs": {},
         "in": {"n": n, "adj": [[a + 1, b + 1] for a, b in E], "W": enc(A), "x": enc(x), "y": enc(y), "yend": enc(ye), "q": enc(q), "quorum": quorum,
                "scale": enc(float(((y - y.mean()) ** 2).sum()) * 10)}}
    if exc:
        return e
    o = e["obs"]
    o["clusters"] = [int(v) for v in reg.clusters]
    o["score"] = enc(float(reg.score))
    o["wkept"] = bool(w.transform.lower() == g["wt"] and np.array_equal(w.sparse.toarray(), A))
    o["kept"] = bool(all(np.array_equal(kw[k], v) if isinstance(v, (np.ndarray, pd.Series, pd.DataFrame)) else kw[k] == v if isinstance(v, list) else kw[k] is v for k, v in kept.items()))
    if g["trace"]:
        num = lambda v: int(v) + 1 if v is not None and v == v else 0
        o["steps"] = [{"labels": [int(v) for v in l], "in_": num(t.in_node), "out": num(t.out_node), "score": enc(float(t.score))} for l, t in reg._trace[1:]]
        o["ssr"] = [enc(float(v)) for v in reg.SSR]
    k2 = cp(kept)
    if g["cls"] != "GM_Lag":
        k2["regime_err_sep"] = True
    ref, x2 = call(getattr(spreg, g["cls"] + "_Regimes"), regimes=np.array(reg.clusters), name_regimes="Skater_reg", **k2)
    if ref is None:
        return dict(e, exc={"type": "reference", "msg": "reference " + x2["msg"], "where": ""})
    a, b = attributes(reg), attributes(ref)
    for d in (a, b):
        for k in ("warning", "summary"):
            if k in d["names"]:
                if k == "warning":
                    d["names"].remove(k)
                else:
                    t = d[k]["value"]
                    d["ssr"] = float((re.findall(r"Overall SSR\s*:\s*(\S+)", t) or ["nan"])[0])
                    d[k]["value"] = "\n".join(l for l in t.split("\n") if "arning" not in l and "has been set" not in l and "default" not in l and "constant_regi=" not in l and "Overall SSR" not in l)
    o.update(a=a, b=b, printed=enc(a.pop("ssr", np.nan)))
    b.pop("ssr", None)
    return e


def body(c):
    cfgs = c.generate("M32", invariants=["AgreesWithScan", "AtLeastTwo", "StopsFirst", "ScaleFree"])
    fits = [g for g in cfgs if g["op"] == "fit"]
    by = {}
    for g in fits:
        by.setdefault((g["cls"], g["k"] == 0, g["opt"] if g["cls"] == "OLS" else g["opt"] in ("plain", "const", "names")), []).append(g)
    out = [g for k in sorted(by) for g in pick(c, by[k], 6 if QUICK else 40)]
    mo = pick(c, [g for g in cfgs if g["op"] == "optim"], 400 if QUICK else 2500)
    ev = pmap(lambda j: one(c, *j), list(enumerate(out + mo)))
    c.validate("C32", ev, timeout=840)


def one(c, i, g):
    return optim(c, i, g) if g["op"] == "optim" else fit(c, i, g)


main("C32", body)
