"""Probit: Newton's iteration, the maximum, what is reported of it, and the spatial tests."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from lib import *
from scipy.stats import norm
import scipy.optimize as op


def separated(y, X):
    """some combination of the columns orders the ones after the zeros (no finite maximum)"""
    q = 2 * y[:, 0] - 1
    A = -(X * q[:, None])
    r = op.linprog(np.full(X.shape[1], 0.) + A.sum(0), A_ub=A, b_ub=np.zeros(len(y)), bounds=[(-1, 1)] * X.shape[1])
    return r.status != 0 or -r.fun > 1e-7


def confusion(summary):
    if "CONFUSION MATRIX" not in summary:
        return "absent"
    out = []
    for row in ("Observed", "Predicted", "Correctly Predicted", "Wrongly Predicted"):
        v = [l for l in summary.split("CONFUSION MATRIX")[1].splitlines() if l.startswith(row)]
        if len(v) != 1:
            return "unreadable"
        out += [int(float(t)) for t in v[0][len(row):].split()]
    return out


def one(c, i, g):
    import spreg
    from spreg import diagnostics_probit as D
    rng = c.sub(22000 + i)
    kx, n = g["kx"], int(rng.integers(52, 84))
    x = np.round(rng.normal(size=(n, kx)) * [1, 2, .5][i % 3] + [0, 1][i % 2], 2)
    if i % 5 == 2:
        x = np.round(x * 2)
    w, W = make_w(["rook", "knn", "gen", "ring"][i % 4], n, rng, ids=None if i % 2 else ["o%02d" % v for v in rng.permutation(n)],
                  transform="r" if i % 3 else "o")
    bt = np.array([.8, -.6, .5][:kx]) / [1, 2, .5][i % 3]
    z = (x - x.mean(0)) @ bt + [0, .4, -.3][i % 3] + rng.normal(size=n)
    y = (z > 0).astype(float).reshape(-1, 1)
    if i % 7 == 3:
        y = y.astype(int)
    if g["cst"]:
        x[:, -1] = [2, 0, -1][i % 3]
    m = kx - g["cst"]
    mask = [] if not g["mask"] else [int(j % 2 == (m > 1)) for j in range(m)]
    given = i % 2
    names = ["ex%d" % (j + 1) for j in range(kx)] if given else ["var_%d" % (j + 1) for j in range(m)] + [""] * (kx - m)
    kw = dict(optim=g["optim"], scalem=g["scalem"], maxiter=g["maxiter"], predflag=bool(g["pred"]), spat_diag=bool(g["spat"]))
    ya, xa = y, x
    name_y = "dep_var"
    if g["pandas"]:
        ya = pd.Series(y[:, 0], name="hit", index=np.arange(n)[::-1])
        name_y = "hit"
        if given:
            xa = pd.DataFrame(x, columns=names)
        else:
            xa = pd.DataFrame(x, columns=["c%d" % j for j in range(kx)], index=np.arange(n) + 5)
            names = ["c%d" % j for j in range(kx)]
    elif given:
        kw.update(name_x=list(names), name_y="why")
        name_y = "why"
    if g["slx"]:
        kw["slx_lags"] = g["slx"]
        if mask:
            kw["slx_vars"] = [bool(v) for v in mask]
    if g["slx"] or g["spat"]:
        kw["w"] = w
    if i % 6 == 1:
        kw["vm"] = True
    s = {"x": enc(x), "y": enc(y.astype(float)), "W": enc(W), "name_x": names, "name_y": name_y, "mask": mask}
    X = [np.ones((n, 1)), x[:, :m]]
    L = x[:, :m][:, [bool(v) for v in mask]] if mask else x[:, :m]
    for _ in range(g["slx"]):
        L = W @ L
        X.append(L)
    X = np.hstack(X)
    if np.linalg.cond(X) > 1e5 or separated(y, X):
        return None
    if g["start"]:
        b = [round(float(v), 2) for v in rng.normal(size=X.shape[1]) * .1 / np.abs(X).max(0)]
        b[0] = b[0] or .01
        kw["bstart"] = b
        s["start"] = enc(np.array(b).reshape(-1, 1))
    e = {"op": "Probit", "cfg": g, "in": s, "exc": None, "obs": {}}
    reg, e["exc"] = call(spreg.Probit, ya, xa, **kw)
    if reg is None:
        return e
    o = snap(reg, ["x", "y", "xmean", "q", "betas", "vm", "xb", "predy", "predybin", "phiy", "u_naive", "u_gen", "logl", "n", "k", "L0", "mcfadrho", "predpc",
                   "scale", "slopes", "slopes_vm", "slopes_std_err", "std_err"])
    o["warning"] = bool(reg.warning)
    o["name_x"], o["name_y"] = list(reg.name_x), reg.name_y
    o["predtable"] = {k: enc(float(v)) for k, v in reg.predtable.items()}
    o["fit"] = {k: enc(float(v)) for k, v in reg.fit.items()}
    o["LR"] = [enc(float(np.ravel(v)[0])) for v in reg.LR]
    o["df"] = enc(float(reg.LRtest["df"]))
    o["slopes_z"] = enc(np.array([[float(a), float(b)] for a, b in reg.slopes_z_stat]))
    o["z_stat"] = enc(np.array([[float(a), float(b)] for a, b in reg.z_stat]))
    o["table"] = table(reg)
    o["confusion"] = confusion(reg.summary)
    two = lambda v: [enc(float(t)) for t in v]
    for k in ("Pinkse_error", "KP_error", "PS_error"):
        o[k] = two(getattr(reg, k)) if hasattr(reg, k) else "absent"
    if g["spat"]:
        r, exc = call(D.sp_tests, obj_list=[w, np.asarray(reg.xb), np.asarray(reg.u_naive), np.asarray(reg.u_gen)])
        o["loose"] = [two(v) for v in r] if r else [[], [], []]
        p = np.asarray(reg.predy)
        r, exc = call(D.moran_KP, w, np.asarray(reg.u_naive), p * (1 - p))
        o["mkp"] = two(r) if exc is None else []
    e["obs"] = o
    return e


def body(c):
    cfgs = c.generate("M22", invariants=["AtLeastOneStep", "Bounded", "NoSilentFailure", "WarnedAtBound"])
    nw = [g for g in cfgs if g["optim"] == "newton"]
    out = pick(c, nw, 220 if QUICK else 1400) + pick(c, [g for g in cfgs if g["optim"] != "newton"], 120 if QUICK else 700)
    c.validate("C22", [v for v in pmap(lambda j: one(c, *j), list(enumerate(out))) if v], timeout=840)


main("C22", body)
