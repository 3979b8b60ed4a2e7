"""Runs of the GM error estimators (C11-C13)."""
from scen import *

ATTRS = ["x", "z", "name_x", "name_z", "n", "k", "betas", "predy", "u", "e_filtered", "sig2", "vm", "std_err", "z_stat",
         "pr2", "rho", "predy_e", "e_pred", "pr2_e", "iteration", "iter_stop", "output"]
CLS = {"x": "GM_Error", "iv": "GM_Endog_Error", "lag": "GM_Combo"}
SUF = {"kp98": "", "het": "_Het", "hom": "_Hom"}
INVARIANTS = ["IterRule", "FitOneBehind", "Reason", "TrueReason", "VmAtLast", "Prefix", "Progress"]


def est(cfg):
    return CLS[cfg["form"]] + SUF[cfg["method"]]


def kwargs(cfg, s):
    kw = dict(s["kw"], **slxkw(cfg, s["w"]))
    kw["w"] = s["w"]
    if cfg["ne"]:
        kw.update(yend=s["yend"], q=s["q"])
    if cfg["form"] == "lag":
        kw.update(w_lags=cfg["wl"], lag_q=bool(cfg["lagq"]))
    return kw


def fit(cfg, s, **over):
    import spreg
    return call(getattr(spreg, est(cfg)), s["y"], s["x"], hard_bound=bool(cfg.get("hard", 0)), **dict(kwargs(cfg, s), **over))


def observe(reg, cfg):
    o = snap(reg, ATTRS)
    if cfg["form"] != "x":
        o["h_meaning"] = [meaning(l) for l in reg.name_h]
    return o


def explain(betas, cfg, s, reg):
    h = None if cfg["form"] == "x" else np.asarray(reg.h, dtype=float)
    z = np.asarray(reg.x if cfg["form"] == "x" else reg.z, dtype=float)
    return explain_raw(betas, s["W"], s["y"].astype(float), z, h, cfg["method"] == "het" and h is not None)


def explain_raw(betas, W, y, z, h, clamp, wz=None):
    """the lambda whose FGLS refit gives these coefficients (a witness; the
    specification decides whether it is one)"""
    wy, wz = W @ y, W @ z if wz is None else wz
    ph = None if h is None else np.linalg.qr(h)[0]
    sc = np.abs(betas).max()

    def b(l):
        zs, ys = z - l * wz, y - l * wy
        if ph is not None:
            zp = ph @ (ph.T @ zs)
            r = np.linalg.solve(zp.T @ zs, zp.T @ ys)
        else:
            r = np.linalg.solve(zs.T @ zs, zs.T @ ys)
        if clamp and abs(r[-1, 0]) > .9:
            r[-1, 0] = np.sign(r[-1, 0]) * .9
        return r

    def f(l):
        return float((((b(l) - betas) / sc) ** 2).sum())
    grid = np.linspace(-.99, .99, 1981)
    v = np.array([f(l) for l in grid])
    cand = [j for j in range(len(grid)) if (j == 0 or v[j - 1] >= v[j]) and (j == len(grid) - 1 or v[j + 1] >= v[j])]
    best = None
    starts = [grid[j] for j in sorted(cand, key=lambda j: v[j])[:6]]
    # the normal equations at the given coefficients are quadratic in lambda
    pr = (lambda m: m) if ph is None else (lambda m: ph @ (ph.T @ m))
    u, wu = y - z @ betas, wy - wz @ betas
    q2, q1, q0 = wz.T @ pr(wu), -(z.T @ pr(wu) + wz.T @ pr(u)), z.T @ pr(u)
    t = np.sqrt((z ** 2).sum(0)).reshape(-1, 1)
    pol = sum(np.polymul([a, b_, c_], [a, b_, c_]) for a, b_, c_ in zip((q2 / t)[:, 0], (q1 / t)[:, 0], (q0 / t)[:, 0]))
    starts += [float(r.real) for r in np.roots(np.polyder(pol)) if abs(r.imag) < 1e-3 * (1 + abs(r.real)) and abs(r.real) < 1]
    for l in starts:
        for _ in range(30):       # Gauss-Newton
            e = 1e-6
            J = (b(l + e) - b(l - e)) / (2 * e)
            if not (J ** 2).sum() > 0:
                break
            step = (J.T @ (betas - b(l)))[0, 0] / (J ** 2).sum()
            l = float(np.clip(l + np.clip(step, -.002, .002), -.99, .99))
        if best is None or f(l) < f(best):
            best = l
    l = best
    return l


def history(c, i, cfg):
    s = scen(c, i, cfg, n=int(40 + i % 9), noise=20.0 if i % 10 == 0 else 2.0, wkind=["rook", "knn", "gen"][i % 3],
             rho=[.3, .5, -.2][i % 3])
    ev = {"op": est(cfg), "cfg": cfg, "in": s["in"], "exc": None, "obs": {}}
    opt = {}
    if cfg["method"] == "het":
        opt["step1c"] = bool(cfg["step1c"])
        if cfg["form"] != "x":
            opt["inv_method"] = cfg["inv"]
    else:
        opt["A1"] = cfg["a1"]
    def run(hard, m, eps):
        return fit(dict(cfg, hard=hard), s, max_iter=m, epsilon=eps, **opt)

    hard = cfg["hard"]
    ev["hard"] = None
    if hard:
        for m in range(1, cfg["maxit"] + 1):
            reg, exc = run(1, m, -1.0)
            if exc and "outside the bounds" in exc["msg"]:
                ev["hard"] = exc
                hard = 0
                break
    runs = []
    for m in range(1, cfg["maxit"] + 1):
        reg, exc = run(hard, m, -1.0)
        if reg is None:
            ev["exc"] = exc
            return ev
        runs.append(reg)
    k = len(runs[0].betas) - 1
    l0 = explain(np.asarray(runs[0].betas[:k], dtype=float), cfg, s, runs[0])
    lam = [l0] + [float(r.betas[-1, 0]) for r in runs]
    d = np.abs(np.diff(lam))
    if cfg["conv"] and cfg["conv"] <= len(d):
        eps = d[cfg["conv"] - 1] * 1.3 + 1e-9
    else:
        eps = d.min() * .5
    eps = min(eps, .9)       # from 1 on the procedure would not start
    reg, exc = run(hard, cfg["maxit"], float(eps))
    if reg is None:
        ev["exc"] = exc
        return ev
    ev["in"].update(lam0=enc(l0), eps=enc(float(eps)))
    ev["obs"] = {"runs": [observe(r, cfg) for r in runs], "stop": observe(reg, cfg)}
    return ev


def histories(c, module, method, limit):
    g = c.generate("MGm", invariants=INVARIANTS)
    des = [d for d in g["designs"] if d["ne"] or d["lagq"] == 1]
    pro = [p for p in g["protocols"] if p["method"] == method]
    c.pyrng.shuffle(pro)
    cfgs = [dict(d, **pro[j % len(pro)]) for j, d in enumerate(des)]
    cfgs = [dict(g, est=est(g), hard=int(j % 5 == 0), inv=["power_exp", "true_inv"][(j // 2) % 2]) for j, g in enumerate(cfgs)]
    cfgs = pick(c, cfgs, limit)
    jobs = [(r * 100000 + i, g) for r in range(1 if QUICK else 3) for i, g in enumerate(cfgs)]
    c.validate(module, pmap(lambda j: history(c, *j), jobs), timeout=840)
