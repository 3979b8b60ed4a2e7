"""Skater_reg: forests, greedy cuts, partitions and scores."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from maps import *


def one(c, i, g):
    import spreg, warnings
    from libpysal.weights import W
    rng = c.sub(23000 + i)
    reg = g["mode"] not in ("attr", "none")
    n = int(rng.integers(18, 24)) if reg else int(rng.integers(8, 14))
    if g["kind"] == "two" and reg:
        n += 6
    E = graph(g["kind"], n, rng)
    ids = list(range(n)) if i % 2 else ["u%02d" % v for v in rng.permutation(n)]
    nb = {v: [] for v in ids}
    for a, b in E:
        nb[ids[a]].append(ids[b]); nb[ids[b]].append(ids[a])
    with quiet():
        w = W(nb, {k: [float(1 + (i % 3 == 0) * j) for j in range(len(v))] for k, v in nb.items()} if g["wt"] == "o" else None, id_order=ids, silence_warnings=True)
        w.transform = g["wt"]
    A = w.sparse.toarray()
    d = rng.normal(size=(n, g["kx"]))
    if g["ties"]:
        d = np.round(d * (1.5 if g["ties"] == 2 else .7))
    d = np.round(d, 3)
    kw = {}
    e = {"op": "skater", "cfg": g, "exc": None, "obs": {},
         "in": {"n": n, "adj": [[a + 1, b + 1] for a, b in E], "data": enc(d), "W": enc(A)}}
    scale = 4.0 * n
    if reg:
        x = np.round(rng.normal(size=(n, g["kx"])) * 2, 2)
        q = np.round(rng.normal(size=(n, 1)) * 2, 2)
        ev = rng.normal(size=(n, 1))
        ye = np.round(1.5 * q + rng.normal(size=(n, 1)) + .5 * ev, 2)
        half = (d[:, :1] > 0) * 3.0
        y = np.round(x.sum(1, keepdims=True) * (1 + half) + ev + (ye if g["mode"] == "tsls" else 0), 3)
        import statsmodels.api as sm
        kw = {"reg": {"ols": spreg.OLS, "olsw": spreg.OLS, "tsls": spreg.TSLS, "lag": spreg.GM_Lag, "sm": sm.OLS}[g["mode"]], "y": y, "x": x}
        if g["mode"] == "tsls":
            kw.update(yend=ye, q=q)
        if g["mode"] in ("lag", "olsw"):
            kw["w"] = w
        e["in"].update(x=enc(x), y=enc(y), yend=enc(ye), q=enc(q))
        scale = float(((y - y.mean()) ** 2).sum()) * 10
    e["in"]["scale"] = enc(scale)
    opt = {}
    import sklearn.metrics.pairwise as P
    if g["metric"] == "manh":
        opt["dissimilarity"] = P.manhattan_distances
    if g["metric"] == "aff":
        opt["affinity"] = P.rbf_kernel
    if g["center"] == "max":
        opt["center"] = np.max
    if g["red"] != "sum":
        opt["reduction"] = getattr(np, g["red"])
    s = spreg.Skater_reg(**opt)
    fam = {"model_family": "statsmodels"} if g["mode"] == "sm" else {}
    keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    d0 = d.copy()
    rec = []
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        def go():
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()):
                with warnings.catch_warnings(record=True) as r:
                    warnings.simplefilter("always")
                    s.fit(g["k"], w, None if g["mode"] == "none" else d, data_reg=kw or None, trace=bool(g["trace"]), islands=g["isl"],
                          **dict({"quorum": g["quorum"]} if g["quorum"] else {}, **fam))
                    go.w = [str(v.message) for v in r]
            return s
        _, e["exc"] = call(go)
    if e["exc"]:
        return e
    M = s.minimum_spanning_forest_
    num = lambda v: int(v) + 1 if v is not None and v == v else 0
    o = e["obs"]
    o["labels"] = [int(v) for v in s.current_labels_] if s.current_labels_ is not None else []
    o["forest"] = [sorted((int(a) + 1, int(b) + 1)) for a, b in zip(*M.nonzero())]
    o["short"] = any("no valid moves" in m for m in go.w)
    o["islands"] = any("disconnected" in m for m in go.w)
    o["wkept"] = bool(w.transform.lower() == g["wt"] and np.array_equal(w.sparse.toarray(), A))
    o["kept"] = bool(np.array_equal(d, d0) and set(kw) == set(keep) and all(np.array_equal(kw[k], v) if isinstance(v, np.ndarray) else kw[k] is v for k, v in keep.items()))
    if g["trace"]:
        o["steps"] = [{"labels": [int(v) for v in l] if l is not None else [], "in_": num(t.in_node), "out": num(t.out_node), "score": enc(t.score) if t.score is not None else "null"}
                      for l, t in s._trace[1:]]
    k2 = dict(kw)
    if g["mode"] == "lag":
        k2 = s._prep_lag(dict(kw)) if hasattr(s, "_prep_lag") else k2
    f = s.score_stats if g["mode"] == "sm" else s.score_spreg
    dd = np.ones((n, 1)) if g["mode"] == "none" else d
    r, x2 = call(f, dd, k2 or None, **({} if i % 2 else {"all_labels": s.current_labels_}))
    o["rescore"] = enc(float(np.asarray(r[0]).ravel()[0])) if r else "absent"
    return e


def body(c):
    cfgs = c.generate("M23", invariants=["OnlyCuts", "QuorumKept", "Nested", "NeverWorse", "TrueScore", "Complete"])
    out = []
    for m, q, t in (("attr", 260, 1500), ("none", 30, 100), ("ols", 60, 400), ("tsls", 40, 300), ("lag", 40, 300), ("sm", 30, 200), ("olsw", 30, 200)):
        out += pick(c, [g for g in cfgs if g["mode"] == m], q if QUICK else t)
    c.validate("C23", pmap(lambda j: one(c, *j), list(enumerate(out))), timeout=840)


main("C23", body)
