"""Reordered, relabelled and rescaled calls of every estimator."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from catalog import *
import itertools
import panels, surs

SAME0 = ["r2", "ar2", "pr2", "pr2_e", "f_stat", "ak_test", "cfh_test", "moran_res", "lm_lag", "lm_error", "rlm_lag", "rlm_error", "lm_sarma",
         "lm_wx", "lm_spdurbin", "dwh", "LR", "Pinkse_error", "KP_error", "PS_error", "predpc", "mcfadrho"]
DIAG = {"jb": ("jarque_bera", "jb"), "bp": ("breusch_pagan", "bp"), "kb": ("koenker_bassett", "kb"), "wh": ("white", "wh")}


def reorder_w(w, rows, ids):
    """the same weights with the observations in another order and other identifiers"""
    from libpysal.weights import W
    old = list(w.id_order)
    new = {old[r]: ids[p] for p, r in enumerate(rows)}
    nb, wt = {}, {}
    for p, r in enumerate(rows):
        pairs_ = list(zip(w.neighbors[old[r]], w.weights[old[r]]))[::-1]
        nb[ids[p]] = [new[a] for a, _ in pairs_]
        wt[ids[p]] = [v for _, v in pairs_]
    return W(nb, wt, id_order=list(ids), silence_warnings=True)


def identifiers(w, rows, kind, rng):
    n = len(rows)
    if kind == "same":
        return [list(w.id_order)[r] for r in rows]
    if kind == "range":
        return list(range(n))
    if kind == "int":
        return [int(v) for v in rng.permutation(n) * 7 + 3]
    return ["z%03d" % v for v in rng.permutation(n)]


def observe(reg, exc, g):
    if reg is None:
        return {}
    o = snap(reg, ["betas", "vm", "u", "predy", "e_pred", "predy_e", "e_filtered", "sig2", "utu", "logll"] + SAME0)
    for k, (a, f) in DIAG.items():
        v = get(reg, a)
        o[k] = enc(np.array([v[f], v["pvalue"]], float)) if isinstance(v, dict) else "absent"
    ch = get(reg, "chow")
    o["chow"] = enc(np.array([float(np.asarray(v).ravel()[0]) for v in ch.joint])) if hasattr(ch, "joint") else "absent"
    for k in ("sig2", "predpc", "mcfadrho"):
        v = get(reg, k)
        o[k] = enc(num(v)) if not isinstance(v, (str, bool)) and v is not None else "absent"
    o = {k: ("absent" if isinstance(v, str) else v) for k, v in o.items()}
    o["names"] = coef_names(reg)
    return o


def pair(c, i, g):
    g = dict(g)
    name, kw, s = build(c, i, g)
    n, rng, ne = s["n"], np.random.default_rng([SEED, 30, i]), g["ne"]
    t = {"px": [0, 1], "pe": list(range(ne)), "pr": list(range(g["nr"]))}
    for k in t:
        if rng.random() < .7:
            t[k] = [int(v) for v in rng.permutation(len(t[k]))]
    rows = [int(v) for v in rng.permutation(n)]
    if i % 6 == 0:
        rows = list(range(n))
    kp = g["est"] in ("GM_Error", "GM_Endog_Error", "GM_Combo")
    units = [1., 8., .125, 100.]
    sx = [units[int(v)] for v in rng.integers(0, 4, 2)]
    se = [units[int(v)] for v in rng.integers(0, 4, ne)]
    sy = 1. if g["est"] == "Probit" else [1., 1., 8., 50.][int(rng.integers(4))]
    if i % 3 == 0:
        sx, se, sy = [1.] * 2, [1.] * ne, 1.
    if g["est"] == "GM_Endog_Error_Het":      # whose last coefficient is held within 0.9 (known finding)
        kw["y"] = kw["y"] / 16
        se, sy = [8.] * ne, 2.
    if g["est"] in ("OLS", "TSLS", "GM_Lag", "Probit", "ML_Lag"):
        kw["spat_diag"] = True
    if g["est"] == "OLS" and not g["regi"]:
        kw.update(moran=True, white_test=True)
    kw["vm"] = bool(i % 2)
    k2 = {k: v for k, v in kw.items()}
    ids = identifiers(s["w"], rows, ["same", "range", "int", "str"][i % 4], rng)
    if "gwk" in kw:
        from libpysal.weights import Kernel
        pts = rng.random((n, 2)) * 10
        ker = lambda q: Kernel(q, k=5, function="triangular", fixed=False, diagonal=True)
        with quiet():
            kw["gwk"], k2["gwk"] = ker(pts), ker(pts[rows])
    k2["w"] = reorder_w(s["w"], rows, ids)
    R = np.array(rows)
    mixed = g["regi"] and not (all(g["vary"][:len(g["vary"]) - ne]) and not g["one"])      # its Chow test is a known finding
    k2["y"] = np.array(kw["y"])[R] * (1 if g["est"] == "Probit" else sy)
    px, pe = t["px"], t["pe"]
    k2["x"] = np.array(kw["x"])[R][:, px] * np.array(sx)
    nx = [s["name_x"][p] for p in px]
    k2["name_x"] = list(nx)
    nye = [s["name_yend"][p] for p in pe]
    if ne:
        k2["yend"] = kw["yend"][R][:, pe] * np.array(se)
        pq = [int(v) for v in rng.permutation(kw["q"].shape[1])]
        k2["q"] = kw["q"][R][:, pq]
        k2.update(name_yend=list(nye), name_q=[s["name_q"][p] for p in pq])
    if g["mask"]:
        k2["slx_vars"] = [kw["slx_vars"][p] for p in px]
    if g["regi"]:
        inv = {r: p for p, r in enumerate(t["pr"])}
        ri = [inv[s["ri"][r] - 1] + 1 for r in rows]
        arg = s["regimes"]
        seen = {r: v for r, v in zip(s["ri"], list(arg))}
        lab = [seen[r + 1] for r in range(g["nr"])]
        k2["regimes"] = [lab[r - 1] for r in ri]
        if isinstance(arg, np.ndarray):
            k2["regimes"] = np.array(k2["regimes"])
        if isinstance(kw["cols2regi"], list):
            lag = [(j, 0) for j in range(2)] + [(j, l) for l in range(1, g["slx"] + 1) for j in range(2) if not g["mask"] or g["mask"][j]]
            lag += [("e", j) for j in range(ne)]
            d = [(j, 0) for j in range(2)] + [(j, l) for l in range(1, g["slx"] + 1) for j in range(2) if not g["mask"] or g["mask"][px[j]]]
            d = [(px[j], l) for j, l in d] + [("e", pe[j]) for j in range(ne)]
            k2["cols2regi"] = [kw["cols2regi"][lag.index(q)] for q in d]
    for k in list(k2):
        if k not in ("w", "gwk", "regimes"):
            v = k2[k]
            k2[k] = v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    a, exc = run(name, kw)
    b, exc2 = run(name, k2)
    oa, ob = observe(a, exc, g), observe(b, exc2, g)
    if mixed and (ne or "Lag" in g["est"] or "Combo" in g["est"]):
        oa["chow"] = ob["chow"] = "absent"
    return {"op": name, "cfg": g, "exc": exc,
            "in": {"t": {k: [j + 1 for j in v] for k, v in t.items()}, "rows": [r + 1 for r in rows], "sx": enc(np.array(sx)), "se": enc(np.array(se or [1.])), "sy": enc(sy),
                   "n": n, "labs": s["labs"], "name_x2": nx, "name_y": s["name_y"], "name_ye2": nye},
            "obs": {"exc2": exc2, "a": oa, "b": ob}}


def by_label(c, i, g):
    """panels, systems and NSLX before and after"""
    import spreg
    rng = np.random.default_rng([SEED, 3030, i])
    units = [1., 8., .5] if g["units"] else [1.]
    u = lambda: float(units[int(rng.integers(len(units)))])
    tol = 1e-6
    if "T" in g:
        s = panels.panel(c, i, dict(g, lay="frame", cst=0, flat=0, mask=0, opt=0), kinds=("sym",) if g["est"].startswith("ML_Error") else ("rook", "knn", "gen", "sym"))
        n, T = s["n"], s["T"]
        rows = [int(v) for v in rng.permutation(n)]
        times = [int(v) for v in rng.permutation(T)]
        R = [t * n + r for t in times for r in rows]
        w2 = reorder_w(s["w"], rows, identifiers(s["w"], rows, ["same", "range", "int", "str"][i % 4], rng))
        sy, sx = u(), [u(), u()]
        if g["est"] == "ML_LagRE":      # information matrix not in the units of y (known finding of C21)
            sy = 1.
        if g["est"].startswith("GM_"):     # moments of small size meet the optimiser's absolute tolerance
            sy = 1.
        px = [int(v) for v in rng.permutation(2)]
        f = getattr(spreg, g["est"])
        kw = dict(s["slxkw"])
        ml = g["est"].startswith("ML_")
        x2 = (s["a"]["x"].iloc[R] * np.array(sx)).iloc[:, px].reset_index(drop=True)
        y2 = (s["a"]["y"].iloc[R] * sy).reset_index(drop=True)
        r1, e1 = call(f, s["a"]["y"], s["a"]["x"], w=s["w"], **s["a"]["kw"], **kw)
        r2, e2 = call(f, y2, x2, w=w2, **s["a"]["kw"], **kw)
        tol = .004 if ml else .002 if g["est"] in ("GM_ErrorPooled", "GM_ErrorRE", "GM_KKP") else 1e-6

        def see(r, scaled):
            t = table(r)
            nm = t["var_names"]
            cf, se = [np.array([float(v[0]) for v in t[k]["$m"]]) for k in ("coefficients", "std_err")]
            fac = np.ones(len(nm))
            a = sy if scaled else 1.
            for j, l in enumerate(nm):
                for v, q in zip(("va", "vb"), sx):
                    if l.endswith(v) and not l.endswith("_hr"):
                        fac[j] = a / (q if scaled else 1.)
                if l == "CONSTANT":
                    fac[j] = a
                if l == "sigma2_u":
                    fac[j] = a * a
            bare = t.get("std_err_nan", [0] * len(nm))
            loose = [enc(float(v) / (a ** 2 if "sigma" in l else 1.)) for v, l, z in zip(cf, nm, bare) if z]
            kp = [j for j, z in enumerate(bare) if not z]
            nm, cf, se, fac = [nm[j] for j in kp], cf[kp], se[kp], fac[kp]
            o = {"names": list(nm), "betas": enc(cf / fac), "vm": enc(np.diag((se / fac) ** 2) + 0.), "obs": [enc(np.asarray(r.u, float) / a), enc(np.asarray(r.predy, float) / a)], "num": loose}
            for k, d in (("sig2", 2), ("sigma2_epsilon", 2), ("hausman_stat", 0), ("pr2", 0), ("sigma2_mu", 2)):
                v = get(r, k)
                if not isinstance(v, str) and v is not None:
                    o["num"].append(enc(num(v) / a ** d))
            b = panels.bsk(r)
            if isinstance(b, dict):
                o["num"].append(b["value"])
            return o
        e = {"rows": [r + 1 for r in R], "T": T}
        oa, ob = see(r1, 0) if r1 is not None else {}, see(r2, 1) if r2 is not None else {}
        if ml and r1 is not None and r2 is not None and abs(np.ravel(r1.betas)[-1] - np.ravel(r2.betas)[-1]) > .02:
            return None       # another local optimum, judged by C21
        if g["est"] == "ML_ErrorRE" and min(float(ob["betas"]["$m"][-1][0]), float(oa["betas"]["$m"][-1][0])) < .001:
            return None       # sigma2_u at its bound
        if g["est"].endswith("RE") and ml and r1 is not None and float(np.ravel(r1.betas)[-1]) > .999:
            return None       # phi at its bound
    elif "m" in g:
        m = g["m"]
        iv = g["est"] in ("ThreeSLS", "SURlagIV")
        h = {"est": g["est"], "kx": [3, 2, 3][:m], "ke": [1] * m if iv else [0] * m, "kq": [2] * m if iv else [0] * m, "nr": 0, "form": "dict"}
        lam = .4 if g["est"].startswith("SURerror") else 0.
        s = surs.system(c, i, h, n=36 + i % 5, rho=.3 if g["est"] == "SURlagIV" else 0., lam=lam, rowst=True)
        n = s["n"]
        rows = [int(v) for v in rng.permutation(n)]
        pe = [int(v) for v in rng.permutation(m)]
        w2 = reorder_w(s["w"], rows, identifiers(s["w"], rows, ["same", "range", "int", "str"][i % 4], rng))
        sy = u()
        nx = [["con%d" % k] + ["a%d_%d" % (j, k) for j in range(1, h["kx"][k])] for k in range(m)]
        px = [[0] + [int(v) + 1 for v in rng.permutation(h["kx"][k] - 1)] for k in range(m)]
        D = lambda l: {k: a for k, a in enumerate(l)}

        def args(new):
            o = pe if new else range(m)
            rr = rows if new else list(range(n))
            col = lambda k: px[k] if new else list(range(h["kx"][k]))
            sc = sy if new else 1.
            pos = [D([s["y"][k][rr] * sc for k in o]), D([s["x"][k][rr][:, col(k)] for k in o])]
            kw = {"name_bigy": D(["y_%d" % k for k in o]), "name_bigX": D([[nx[k][j] for j in col(k)] for k in o])}
            if iv:
                pos += [D([s["yend"][k][rr] for k in o]), D([s["q"][k][rr] for k in o])]
                kw.update(name_bigyend=D([["en_%d" % k] for k in o]), name_bigq=D([["q1_%d" % k, "q2_%d" % k] for k in o]))
            if g["est"] not in ("SUR", "ThreeSLS"):
                kw["w"] = w2 if new else s["w"]
            if g["est"] == "SUR":
                kw.update(spat_diag=True, w=w2 if new else s["w"])
            return pos, kw
        f = getattr(spreg, g["est"])
        (p1, k1), (p2, k2) = args(0), args(1)
        r1, e1 = call(f, *p1, **k1)
        r2, e2 = call(f, *p2, **k2)
        tol = .03 if g["est"].startswith("SURerror") else 1e-6

        def see(r, new):
            o_ = pe if new else list(range(m))
            a = sy if new else 1.
            b = r.b3SLS if iv else r.bSUR
            nm, bb = [], []
            for p_, k in enumerate(o_):
                l = list(r.name_bigX[p_]) + (list(r.name_bigyend[p_]) if iv else [])
                nm += ["%d:%s" % (k, v) for v in l]
                bk = np.asarray(b[p_], float).reshape(-1, 1)
                bb.append(bk / np.array([[1.] if v.startswith("W_") else [a] for v in l]))
            fac = np.concatenate([np.array([1. if v.split(":")[1].startswith("W_") else a for v in nm])])
            vm = np.asarray(r.varb, float) / np.outer(fac, fac)
            inv = [o_.index(k) for k in range(m)]
            E = np.asarray(r.bigE, float)[:, inv] / a
            S = np.asarray(r.sig, float)[np.ix_(inv, inv)] / a ** 2
            o = {"names": nm, "betas": enc(np.vstack(bb)), "vm": enc(vm), "obs": [enc(E)], "num": [enc(S)]}
            if hasattr(r, "lamsur"):
                o["num"].append(enc(np.asarray(r.lamsur, float).reshape(-1, 1)[inv]))
            for k in ("lrtest", "lmtest", "lmEtest", "lmlagtest", "joinrho"):
                v = getattr(r, k, None)
                if isinstance(v, tuple):
                    o["num"].append(enc(np.array([float(q) for q in v])))
            return o
        e = {"rows": [r + 1 for r in rows]}
        oa, ob = see(r1, 0) if r1 is not None else {}, see(r2, 1) if r2 is not None else {}
    else:
        n = 40
        co = np.round(rng.uniform(0, 10, size=(n, 2)), 3)
        x = np.round(rng.normal(size=(n, 2)) * 2, 2)
        Dm = np.sqrt(((co[:, None] - co[None]) ** 2).sum(2))
        W = np.zeros((n, n))
        for k in range(n):
            o = np.argsort(Dm[k])[1:7]
            z = Dm[k, o] / Dm[k, o].max()
            W[k, o] = np.exp(-z * 1.) if g["tr"] == "exponential" else (1 - z) ** 1.
        y = 1 + x @ [[.5], [1.]] + (W @ x).sum(1, keepdims=True) * 1.5 + rng.normal(size=(n, 1)) * .3
        rows = [int(v) for v in rng.permutation(n)]
        sy, su = u(), u()
        pr = [(6, np.inf, g["tr"])]
        r1, e1 = call(spreg.NSLX, y, x, co, params=pr, name_y="hr", name_x=["va", "vb"])
        r2, e2 = call(spreg.NSLX, y[rows] * sy, x[rows], co[rows] * su, params=pr, name_y="hr", name_x=["va", "vb"])
        tol = .01

        def see(r, new):
            a = sy if new else 1.
            b = np.asarray(r.betas, float).copy()
            b[:-1] /= a
            v = np.asarray(r.vm, float).copy()
            v[:-1, :-1] /= a * a
            return {"names": table(r)["var_names"], "betas": enc(b), "vm": enc(v), "obs": [enc(np.asarray(r.u, float) / a)], "num": [enc(num(r.sig2) / a ** 2)]}
        oa, ob = see(r1, 0) if r1 is not None else {}, see(r2, 1) if r2 is not None else {}
        e = {"rows": [r + 1 for r in rows]}
        d = [float(np.ravel(r.betas)[-1]) for r in (r1, r2) if r is not None]
        if len(d) == 2 and (min(d) < .01 or max(d) > 25 or abs(d[0] - d[1]) > .02):
            return None       # flat or another local optimum, judged by C28
    e["tol"] = enc(tol)
    return {"op": "labels", "cfg": g, "exc": e1, "in": e, "obs": {"exc2": e2, "a": oa, "b": ob}}


def body(c):
    cfgs = c.generate("M30", invariants=["OneToOne", "Composes", "LabelsTravel", "Involution"])
    cfgs.sort(key=lambda g: json.dumps(g, sort_keys=True))
    other = pick(c, [g for g in cfgs if g.get("op") == "labels"], 160 if QUICK else None) * (1 if QUICK else 15)
    cfgs = [g for g in cfgs if "op" not in g]
    by = {}
    for g in cfgs:
        by.setdefault((g["est"], g["regi"], g["sep"], g["ne"] > 0), []).append(g)
    out = [g for k in sorted(by) for g in pick(c, by[k], 14 if QUICK else 250)]
    ev = pmap(lambda j: pair(c, *j), list(enumerate(out)))
    ev += pmap(lambda j: by_label(c, j[0], dict(j[1])), list(enumerate(other)))
    c.validate("C30", [e for e in ev if e], timeout=840)


main("C30", body)
