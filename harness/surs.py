"""Systems of equations: data, calls and observations."""
from regi import *


def system(c, i, g, n, rho=0.0, lam=0.0, wkind=None, rowst=False):
    """data per equation; g: kx (with constant) ke kq nr"""
    rng = c.sub(910000 + i)
    m = len(g["kx"])
    w, W = make_w(wkind or ["rook", "knn", "gen"][i % 3], n, rng, ids=None if i % 2 else ["s%03d" % v for v in rng.permutation(n)],
                  transform="r" if (i // 2) % 2 or rho or lam or rowst else "o")
    L = rng.uniform(-.8, .9, size=(m, m))
    L *= min(1, .8 / np.abs(L).sum(1).max())          # the disturbances of the equations stay well apart
    U = rng.normal(size=(n, m)) @ (np.eye(m) + L) * 1.5
    x, y, ye, q = [], [], [], []
    A = np.linalg.inv(np.eye(n) - rho * W) if rho else np.eye(n)
    B = np.linalg.inv(np.eye(n) - lam * W) if lam else np.eye(n)
    kq = g.get("kq") or [0] * m
    shared = np.round(rng.normal(size=(n, 1)) * 2, 2)
    for k in range(m):
        xk = np.round(rng.normal(size=(n, g["kx"][k] - 1)) * [1, 3, .5][(i + k) % 3] + [0, 2][k % 2], 2)
        if i % 4 == 1:      # equations sharing a variable
            xk[:, [0]] = shared
        qk = np.round(rng.normal(size=(n, kq[k])) * 2, 2)
        u = B @ U[:, [k]]
        ek = np.zeros((n, 0))
        if g["ke"][k]:
            ek = np.round(qk @ rng.uniform(.5, 1.5, size=(kq[k], g["ke"][k])) + rng.normal(size=(n, g["ke"][k])) + .5 * u, 3)
            for j in range(g["ke"][k]):
                ek[:, j] += qk[:, j % kq[k]] * 1.5
        yk = A @ (1 + xk.sum(1, keepdims=True) * .8 + ek.sum(1, keepdims=True) + u)
        x.append(np.hstack([np.ones((n, 1)), xk]))
        y.append(np.round(yk, 4))
        ye.append(ek)
        q.append(qk)
    s = dict(n=n, m=m, w=w, W=W, x=x, y=y, yend=ye, q=q)
    s["in"] = {"W": enc(W), "x": [enc(a) for a in x], "y": [enc(a) for a in y], "ri": [], "labs": []}
    if sum(g["ke"]):
        s["in"].update(yend=[enc(a) for a in ye])
    if sum(kq):
        s["in"].update(q=[enc(a) for a in q])
    if g["nr"]:
        ri = partition(rng, n, g["nr"], ["random", "random", "sorted"][i % 3])
        labs, arg = labels(KINDS[i % len(KINDS)], g["nr"], ri)
        s["regimes"] = arg
        s["in"].update(ri=ri, labs=labs)
    return s


def arguments(s, g, i, base=1, ybase=None):
    """(positional data, keyword arguments) in the form asked for, with the names expected"""
    m, n = s["m"], s["n"]
    sls = g["est"] in ("ThreeSLS", "SURlagIV")
    D = lambda l: {k: np.array(a) for k, a in enumerate(l)}
    kw = {}
    given = i % 2
    if g["form"] == "dict":
        ny = ["y_%d" % k if given else "dep_var_%d" % (k + (base if ybase is None else ybase)) for k in range(m)]
        nx = [["con%d" % k] + ["a%d_%d" % (j, k) for j in range(1, g["kx"][k])] if given else
              ["Constant_%d" % (k + base)] + ["var_%d_%d" % (j, k + base) for j in range(1, g["kx"][k])] for k in range(m)]
        ne = [["en%d_%d" % (j, k) if given else "end_%d_%d" % (j + 1, k + 1) for j in range(g["ke"][k])] for k in range(m)]
        kq = g.get("kq") or [0] * m
        nq = [["iq%d_%d" % (j, k) if given else "inst_%d_%d" % (j + 1, k + 1) for j in range(kq[k])] for k in range(m)]
        pos = [D(s["y"]), D(s["x"])]
        if sls:
            pos += [D(s["yend"]) if sum(g["ke"]) else None, D(s["q"]) if sum(kq) else None]
        if given:
            kw = {"name_bigy": dict(enumerate(ny)), "name_bigX": {k: list(v) for k, v in enumerate(nx)}}
            if sls and sum(g["ke"]):
                kw.update(name_bigyend={k: list(v) for k, v in enumerate(ne)}, name_bigq={k: list(v) for k, v in enumerate(nq)})
    elif g["form"] == "frame":
        df, ny, nx, ne, nq = pd.DataFrame(), [], [], [], []
        for k in range(m):
            df["Y%d" % k] = s["y"][k][:, 0]
            ny.append("Y%d" % k)
            nx.append(["X%d_%d" % (j, k) for j in range(1, g["kx"][k])])
            ne.append(["E%d_%d" % (j, k) for j in range(g["ke"][k])])
            nq.append(["Q%d_%d" % (j, k) for j in range((g.get("kq") or [0] * m)[k])])
            for j, a in enumerate(nx[k]):
                df[a] = s["x"][k][:, j + 1]
            for j, a in enumerate(ne[k]):
                df[a] = s["yend"][k][:, j]
            for j, a in enumerate(nq[k]):
                df[a] = s["q"][k][:, j]
        kw["df"] = df
        pos = [list(ny), [list(a) for a in nx]]
        if sls:
            pos += [[list(a) for a in ne] if sum(g["ke"]) else None, [list(a) for a in nq] if sum(g["ke"]) else None]
        nx = [["Constant_%d" % (k + 1)] + nx[k] for k in range(m)]
    else:       # observations stacked, in mixed order
        from spreg.sur_utils import sur_dictxy, sur_dictZ
        kq = g.get("kq") or [0] * m
        rng = np.random.default_rng([SEED, 77, i])
        rows = [(u, t) for u in range(n) for t in range(m)]
        # units first appear in their order
        order = sorted(range(len(rows)), key=lambda r: (rows[r][1] if i % 2 else 0, rows[r][0], rng.random()))
        rows = [rows[r] for r in order]
        times = [[1990, 2000, 2010], [3, 1, 2], [10, 2, 30]][i % 3][:m]
        times = sorted(times)
        df = pd.DataFrame({"y": [s["y"][t][u, 0] for u, t in rows], "id": [100 + u for u, t in rows], "tm": [times[t] for u, t in rows]})
        kx = g["kx"][0] - 1
        for j in range(kx):
            df["x%d" % j] = [s["x"][t][u, j + 1] for u, t in rows]
        by, bx, ny, nx = sur_dictxy(df, ["y"], [["x%d" % j for j in range(kx)]], space_id=["id"], time_id=["tm"])
        pos = [by, bx]
        kw = {"name_bigy": dict(ny), "name_bigX": {k: list(v) for k, v in nx.items()}}
        ny = ["y_%d" % t for t in times]
        nx = [["Constant_%d" % t] + ["x%d_%d" % (j, t) for j in range(kx)] for t in times]
        ne = nq = [[] for _ in range(m)]
        if sls:
            for j in range(g["ke"][0]):
                df["e%d" % j] = [s["yend"][t][u, j] for u, t in rows]
            for j in range(kq[0]):
                df["q%d" % j] = [s["q"][t][u, j] for u, t in rows]
            be, nne = sur_dictZ(df, [["e%d" % j for j in range(g["ke"][0])]], form="plm", space_id=["id"], time_id=["tm"])
            bq, nnq = sur_dictZ(df, [["q%d" % j for j in range(kq[0])]], form="plm", space_id=["id"], time_id=["tm"])
            pos += [be, bq]
            kw.update(name_bigyend=nne, name_bigq=nnq)
            ne = [["e%d_%d" % (j, t) for j in range(g["ke"][0])] for t in times]
            nq = [["q%d_%d" % (j, t) for j in range(kq[0])] for t in times]
    s["in"].update(name_y=ny, name_x=nx, name_yend=ne, name_q=nq)
    if g["nr"]:
        kw["regimes"] = s["regimes"]
    return pos, kw


def lst(d):
    return [d[k] for k in sorted(d)] if isinstance(d, dict) else d


def observe(reg, mats, seqs=(), tests=()):
    o = {}
    for a in mats:
        o[a] = enc(np.asarray(getattr(reg, a), dtype=float)) if hasattr(reg, a) else "absent"
    for a in seqs:
        v = getattr(reg, a, "absent")
        o[a] = [enc(np.asarray(b, dtype=float)) for b in lst(v)] if isinstance(v, dict) else "absent"
    for a in tests:
        v = getattr(reg, a, "absent")
        o[a] = "none" if v is None else v if isinstance(v, str) else [enc(float(b)) for b in v]
    v = getattr(reg, "surchow", "absent")
    o["surchow"] = "none" if v is None else v if isinstance(v, str) else [[enc(float(b)) for b in t] for t in v]
    if hasattr(reg, "chow_regimes"):
        o["chow_regimes"] = [{"joint": [enc(float(b)) for b in j], "regi": [[enc(float(b)) for b in r] for r in t]} for j, t in lst(reg.chow_regimes)]
    for a in ("name_bigX", "name_bigyend", "name_bigq", "name_bigy"):
        v = getattr(reg, a, None)
        if isinstance(v, dict):
            o[a] = [list(b) if not isinstance(b, str) else b for b in lst(v)]
    return o
