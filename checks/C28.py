"""Nonlinear SLX."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from scen import *


def distances(co, metric):
    if metric == "Euclidean":
        return np.sqrt(((co[:, None, :] - co[None, :, :]) ** 2).sum(2))
    r = np.radians(co)
    v = np.c_[np.cos(r[:, 1]) * np.cos(r[:, 0]), np.cos(r[:, 1]) * np.sin(r[:, 0]), np.sin(r[:, 1])]
    ch = np.sqrt(((v[:, None, :] - v[None, :, :]) ** 2).sum(2))
    return 2 * np.arcsin(np.clip(ch / 2, 0, 1)) * 6371.0      # libpysal measures arcs in kilometres by default


def neighbours(D, k, b, tr):
    """data generation only: scaled distances and who is a neighbour"""
    n = len(D)
    w, m = np.zeros((n, n)), np.zeros((n, n))
    for i in range(n):
        o = [j for j in np.argsort(D[i], kind="stable") if j != i and D[i, j] < b][:k]
        if o:
            w[i, o] = D[i, o] / max(D[i, o].max(), 1e-300)
            m[i, o] = 1
    return ((1 - w) * m if tr == "power" else w), m


def one(c, i, g):
    import spreg
    rng = c.sub(28000 + i)
    n = int(rng.integers(28, 40))
    co = np.round(rng.uniform(0, 10, size=(n, 2)), 3)
    if g["dup"]:
        co[3], co[7] = co[12], co[1]
    if g["far"]:
        co[n - 1] = co[n - 2] = [40, 41]
        co[n - 2] += .5
    D = distances(co, g["metric"])
    unit = 1 if g["metric"] == "Euclidean" else np.pi / 180 * 6371.0
    bound = {"inf": np.inf, "tight": 2.2, "loose": 6.0}[g["bound"]] * unit
    kx = g["kx"]
    x = np.round(rng.normal(size=(n, kx)) * 2, 2)
    if g["cst"]:
        x[:, kx - 1] = 3
    m = kx - g["cst"]
    if g["dup"]:
        x[3], x[7] = x[12], x[1]      # which of two equally distant points comes first is open
    mask = {"All": [True] * m, "allflags": [True] * m, "first": [True] + [False] * (m - 1), "last": [False] + [True] * (m - 1)}[g["slx"]]
    trs = {"exp": ["exponential"], "default": ["exponential"], "power": ["power"], "multi": ["exponential"] * m, "mixed": ["power", "exponential", "power"][:m]}[g["par"]]
    K = 10 if g["par"] == "default" else g["K"]
    params = [(K + (j if len(trs) > 1 else 0), bound, t) for j, t in enumerate(trs)]
    short = len(params) > 1 and i % 2 and g["slx"] in ("first", "last")     # one tuple per lagged variable
    used = params if len(params) == 1 else [p for p, u in zip(params, mask) if u]
    if short and len(used) > 1:
        params = used
    xw = x[:, :m][:, mask]
    y = 1 + x[:, :m] @ (np.arange(1, m + 1) / 2.0)
    for j in range(xw.shape[1]):
        k, b, t = used[0] if len(used) == 1 else used[j]
        w, msk = neighbours(D, k, b, t)
        a = [1.4, 2.2, 1.8][j % 3]
        y = y + (msk * (np.where(w > 0, w, 0) ** a if t == "power" else np.exp(-a * w))) @ xw[:, j]
    y = np.round(y.reshape(-1, 1) + rng.normal(size=(n, 1)) * .6, 3)
    kw, nx = {}, ["var_%d" % (j + 1) for j in range(m)]
    if g["names"]:
        nx = ["ex%d" % j for j in range(m)]
        kw = {"name_y": "why", "name_x": nx + ["konst"] * g["cst"]}
    if g["slx"] != "All":
        kw["slx_vars"] = list(mask)
    if g["par"] != "default":
        kw["params"] = params
    if g["metric"] == "Arc":
        kw["distance_metric"] = "Arc"
    cc = co
    if g["form"] == "frame":
        cc = pd.DataFrame(co, columns=["cx", "cy"])
    if g["form"] == "points":
        import geopandas as gpd
        cc = gpd.GeoSeries(gpd.points_from_xy(co[:, 0], co[:, 1]), name="geometry")
    if i % 3 == 0:
        kw["leafsize"] = 4
    x0, y0, c0 = x.copy(), y.copy(), co.copy()
    reg, exc = call(spreg.NSLX, y, x, cc, var_flag=g["vf"], **kw)
    pre = ["W%s_" % ((used[0] if len(used) == 1 else used[j])[2][0]) for j in range(xw.shape[1])]
    names = ["CONSTANT"] + nx + [p + v for p, v in zip(pre, [v for v, u in zip(nx, mask) if u])]
    par = [{"k": k, "bound": "inf" if np.isinf(b) else enc(float(b)), "tr": t} for k, b, t in used]
    e = {"op": "nslx", "cfg": g, "exc": exc, "obs": {}, "in": {"X": enc(np.hstack([np.ones((n, 1)), x[:, :m]])), "xw": enc(xw), "y": enc(y), "D": enc(D), "par": par, "names": names}}
    if reg is None:
        if "Singular variance" in exc["msg"]:
            r2 = call(spreg.NSLX, y, x, cc, var_flag=0, **kw)[0]
            if r2 is not None and (np.asarray(r2.betas).ravel()[-xw.shape[1]:] > 25).any():
                return None            # the function no longer depends on the decay parameter
        return e
    vm = np.asarray(reg.vm, float)
    al = np.asarray(reg.betas).ravel()[-xw.shape[1]:]
    if not np.isfinite(np.asarray(reg.betas, float)).all() or (al > 60).any() or (al < -10).any():
        return None                     # the decay parameter left the region where the function depends on it
    # gradients that vanish, or logs of negative numbers, leave no variance to compare
    e["in"]["well"] = bool((al > .05).all() and (al < 25).all())
    e["in"]["finite"] = bool(np.isfinite(vm).all() and (np.diag(vm) > 0).all())
    o = snap(reg, ["n", "k", "utu", "sig2", "sign", "predy", "u", "ll", "aic", "schwarz"])
    h = xw.shape[1]
    o.update(vll=enc(vm[:-h, :-h]), vla=enc(np.vstack([vm[:-h, -h:], vm[-h:, :-h].T])), vaa=enc(vm[-h:, -h:]))
    o.update(betas=enc(np.asarray(reg.betas).reshape(-1, 1)), vm=enc(vm), names=[str(v) for v in reg.name_x], success=bool(reg.success), output=table(reg))
    if g["vf"] == 0:
        o["ihess"] = enc(np.asarray(reg.ihess))
    e["obs"] = o
    return e


def body(c):
    cfgs = c.generate("M28", invariants=["Complete"])
    out = pick(c, cfgs, 300 if QUICK else 2400)
    c.validate("C28", [e for e in pmap(lambda j: one(c, *j), list(enumerate(out))) if e], timeout=840)


main("C28", body)
