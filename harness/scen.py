"""Scenarios: concrete data for an abstract configuration."""
from lib import *


def scen(c, i, cfg, n=None, wkind=None, wt=None, style=None, noise=1.0, given=None, rho=0.4):
    """cfg keys used: kx const ne nq; returns a dict with arrays, weights, names
    and the encoded inputs ("in")."""
    rng = c.sub(i)
    n = n or int(rng.integers(30, 44))
    kx = cfg["kx"]
    x = xdata(n, kx, rng, style or ["int", "float", "pos"][i % 3])
    for j in cfg.get("const", []):
        x[:, j - 1] = [3, 0, -2][j % 3]
    w, W = make_w(wkind or ["rook", "knn", "gen", "ring"][i % 4], n, rng,
                  ids=None if i % 2 else ["r%02d" % v for v in rng.permutation(n)],
                  transform=wt or ("r" if (i // 2) % 2 else "o"))
    s = {"rng": rng, "n": n, "x": x, "w": w, "W": W}
    given = bool(i % 2) if given is None else given
    s["given"] = given
    ne, nq = cfg.get("ne", 0), cfg.get("nq", 0)
    q = np.round(rng.normal(size=(n, nq)) * 2, 2) if nq else None
    ev = rng.normal(size=(n, 1))
    ye = None
    if ne:
        ye = np.round(q @ rng.uniform(.5, 1.5, size=(nq, ne)) + rng.normal(size=(n, ne)) + .5 * ev, 3)
        for j in range(ne):
            ye[:, j] += q[:, j % nq] * 1.5
    scale = max(abs(W.sum(1)).max(), 1e-9)
    sig = x @ (np.arange(1, kx + 1) / 2.0) + 2
    if ne:
        sig = sig + ye.sum(1)
    y = np.linalg.solve(np.eye(n) - rho * W / scale, sig.reshape(-1, 1) + noise * ev)
    y = np.round(y, 4)
    s.update(y=y, q=q, yend=ye)
    keep = [j for j in range(kx) if (j + 1) not in cfg.get("const", [])]
    if given:
        nx = ["ex%d" % (j + 1) for j in range(kx)]
        s["kw"] = {"name_y": "why", "name_x": list(nx)}
        ny = "why"
        nye, nq_ = ["ye%d" % (j + 1) for j in range(ne)], ["qi%d" % (j + 1) for j in range(nq)]
        if ne:
            s["kw"].update(name_yend=list(nye), name_q=list(nq_))
    else:
        nx = [""] * kx
        for p, j in enumerate(keep):
            nx[j] = "var_%d" % (p + 1)
        ny = "dep_var"
        nye, nq_ = ["endogenous_%d" % (j + 1) for j in range(ne)], ["instrument_%d" % (j + 1) for j in range(nq)]
        s["kw"] = {}
    s.update(name_x=nx, name_y=ny, name_yend=nye, name_q=nq_)
    s["in"] = {"x": enc(x), "y": enc(y), "W": enc(W), "name_x": nx, "name_y": ny, "name_yend": nye, "name_q": nq_}
    if ne:
        s["in"].update(yend=enc(ye), q=enc(q))
    return s


def slxkw(cfg, w):
    kw = {}
    if cfg.get("slx"):
        kw = {"slx_lags": cfg["slx"], "w": w}
        if cfg.get("mask"):
            kw["slx_vars"] = [bool(b) for b in cfg["mask"]]
    return kw


def meaning(label):
    """a label as (variable, total power of W)"""
    p = 0
    while True:
        m = re.match(r"W(\d*)_(.+)$", label)
        if not m:
            return [label, p]
        p += int(m.group(1) or 1)
        label = m.group(2)
