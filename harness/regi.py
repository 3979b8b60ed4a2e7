"""Regimes: labels, partitions and runs shared by the regime checks."""
from scen import *

KINDS = ["int", "str", "float", "half", "neg", "bigint", "npint", "series", "lower"]


def labels(kind, nr, n_obs_ri):
    """(labels in the library's order, regimes argument) for regime numbers 1..nr"""
    base = {"int": [1, 2, 3, 4], "str": ["East", "North", "West", "south"], "float": [1.0, 2.0, 3.0, 4.0],
            "half": [0.5, 1.0, 1.5, 2.5], "neg": [-7, 0, 3, 5], "bigint": [2, 10, 30, 200], "npint": [0, 1, 2, 3],
            "series": [4, 5, 6, 9], "lower": ["a", "b", "c", "d"]}[kind][:nr]
    arg = [base[r - 1] for r in n_obs_ri]
    if kind == "npint":
        arg = np.array(arg)
    elif kind == "series":
        arg = pd.Series(arg, name="REG")
    elif kind == "half" and n_obs_ri[0] % 2:
        arg = np.array(arg)
    labs = [str(b) for b in base]
    if kind == "float":
        labs = [str(int(b)) for b in base]
    return labs, arg


def partition(rng, n, nr, how):
    """regime number per observation; all regimes of workable but unequal size"""
    cut = np.sort(rng.dirichlet([8] * nr))
    sizes = np.maximum((cut * n).astype(int), n // (nr + 1))
    ri = np.concatenate([np.full(s, r + 1) for r, s in enumerate(sizes)])
    ri = np.concatenate([ri, rng.integers(1, nr + 1, size=max(0, n - len(ri)))])[:n]
    p = rng.permutation(nr) + 1
    ri = p[ri - 1]
    if how == "sorted":
        ri = np.sort(ri)
    elif how == "reverse":
        ri = np.sort(ri)[::-1]
    else:
        ri = rng.permutation(ri)
    return [int(v) for v in ri]


def linked(W, ri):
    """the weights inside every regime carry the moments of the spatial error models:
    without second order links W'W - diag(W'W) vanishes and nothing is identified"""
    ri = np.array(ri)
    for r in set(ri.tolist()):
        S = W[np.ix_(ri == r, ri == r)]
        P = S.T @ S
        if (P - np.diag(np.diag(P)) != 0).sum() < max(8, S.shape[0] // 2):
            return False
    return True


def reg_scen(c, i, cfg, n, kind=None, how=None, **k):
    s = scen(c, i, cfg, n=n, **k)
    rng = np.random.default_rng([SEED, 31337, i])
    kind = kind or KINDS[i % len(KINDS)]
    how = how or ["random", "random", "sorted", "reverse"][(i // 3) % 4]
    for _ in range(40):
        ri = partition(rng, n, cfg["nr"], how)
        if linked(s["W"], ri):
            break
    else:      # neighbouring observations together
        A, seen = (s["W"] != 0) | (s["W"].T != 0), []
        for a in range(n):
            todo = [a]
            while todo:
                b = todo.pop(0)
                if b not in seen:
                    seen.append(b)
                    todo += [int(v) for v in np.nonzero(A[b])[0]]
        ri = [r for _, r in sorted(zip(seen, sorted(ri)))]
    for j in cfg.get("creg", []):      # constant within one regime (not overall)
        s["x"][:, j - 1] = np.where(np.array(ri) == 1 + i % cfg["nr"], 4.0, s["x"][:, j - 1])
        s["in"]["x"] = enc(s["x"])
    labs, arg = labels(kind, cfg["nr"], ri)
    # coefficients and error scale differ between regimes
    r = np.array(ri).reshape(-1, 1)
    s["y"] = np.round(s["y"] + (r - 1) * .7 * s["x"][:, [0]] + rng.normal(size=(n, 1)) * r * .6, 4)
    s["in"].update(y=enc(s["y"]), ri=ri, labs=labs)
    s.update(ri=ri, labs=labs, regimes=arg)
    w0 = s["w"].transformations["O"]
    W0 = np.zeros((n, n))
    pos = {v: k_ for k_, v in enumerate(s["w"].id_order)}
    for a in s["w"].id_order:
        for b, v in zip(s["w"].neighbors[a], w0[a]):
            W0[pos[a], pos[b]] = v
    s["in"]["W0"] = enc(W0)
    return s


def multi_snap(reg, attrs):
    """results per regime, in the order of the keys"""
    m = getattr(reg, "multi", None)
    if not isinstance(m, dict):
        return {"multi": "absent", "keys": "absent"}
    return {"keys": [str(k) for k in m], "multi": [snap(m[k], attrs) for k in m]}


def interact(pairs, D):
    out = []
    for B, v in pairs:
        for r in range(D.shape[1]):
            out += [B[:, [j]] * D[:, [r]] for j in range(B.shape[1]) if v[j]]
        out += [B[:, [j]] for j in range(B.shape[1]) if not v[j]]
    return np.hstack(out)


def dense(a):
    return a.toarray() if sp.issparse(a) else np.asarray(a, dtype=float)


def block_weights(s):
    """remove the links between regimes"""
    from libpysal.weights import W as PW
    w, reg_of = s["w"], dict(zip(s["w"].id_order, s["ri"]))
    nb = {k: [j for j in w.neighbors[k] if reg_of[j] == reg_of[k]] for k in w.id_order}
    wt = {k: [v for j, v in zip(w.neighbors[k], w.weights[k]) if reg_of[j] == reg_of[k]] for k in w.id_order}
    with quiet():
        s["w"] = PW(nb, wt, id_order=list(w.id_order), silence_warnings=True)
    s["W"] = s["w"].sparse.toarray()
    s["in"]["W0"] = enc(s["W"])
