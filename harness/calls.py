"""Well-formed calls of every estimator, and one malformation of them at a time."""
from catalog import *
from panels import panel
import surs
import copy as COPY

PANELS = {"PanelFE", "PanelRE", "PanelPooled", "Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error", "ML_LagFE",
          "ML_LagRE", "ML_ErrorFE", "ML_ErrorRE", "GM_KKP"}
SYSTEMS = {"SUR", "SURerrorGM", "SURerrorML", "SURlagIV", "ThreeSLS"}
SIG = {}


def family(est):
    return "panel" if est in PANELS else "system" if est in SYSTEMS else "nslx" if est == "NSLX" else "cross"


def keywords(name, pos, kw):
    """everything by keyword"""
    import spreg
    import inspect
    ps = [p for p in inspect.signature(getattr(spreg, name).__init__).parameters if p != "self"]
    return {**dict(zip(ps, pos)), **kw}


def valid(c, i, g):
    """(class, keyword arguments, {role: [(argument, key)]})"""
    fam, est = family(g["est"]), g["est"]
    if fam == "cross":
        name, kw, s = build(c, i, g)
        if g["form"] == "none" and i % 3 == 1:      # one-dimensional columns
            kw["y"] = kw["y"].ravel()
            if g["ne"] == 1 and i % 2:
                kw["yend"] = kw["yend"].ravel()
        roles = {"y": [("y", None)], "x": [("x", None)]}
        if g["ne"]:
            roles.update(yend=[("yend", None)], q=[("q", None)])
        return name, kw, roles
    if fam == "nslx":
        s = scen(c, i, {"kx": 2}, n=40)
        rng = c.sub(61000 + i)
        return "NSLX", dict(y=s["y"], x=s["x"], coords=rng.uniform(0, 9, size=(40, 2)).round(2), params=[(5, np.inf, "power")] * 2,
                            **{k: v for k, v in s["kw"].items() if k in ("name_y", "name_x")}), {"y": [("y", None)], "x": [("x", None)], "coords": [("coords", None)]}
    if fam == "panel":
        h = dict(kx=2, T=3, slx=0, cst=0, flat=0, lay={"none": "long", "list": "wide", "frame": ["frame", "wideframe"][i % 2]}[g["form"]], est=est, mask=0)
        s = panel(c, i, h, kinds=("sym",))
        return est, dict(y=s["a"]["y"], x=s["a"]["x"], w=s["w"], **s["a"]["kw"]), {"y": [("y", None)], "x": [("x", None)]}
    sls = est in ("ThreeSLS", "SURlagIV")
    ke = [1, 1] if est == "ThreeSLS" or (est == "SURlagIV" and g["ne"]) else [0, 0]
    h = dict(est=est, kx=[3, 3], ke=ke, kq=[2 * v for v in ke], nr=g["nr"], form={"none": "dict", "list": "dict", "frame": "frame"}[g["form"]])
    s = surs.system(c, i, h, (g["nr"] or 1) * 20 + 20, rowst=True)
    pos, kw = surs.arguments(s, h, i)
    kw = keywords(est, pos, kw)
    if est != "ThreeSLS":
        kw["w"] = s["w"]
    if est == "SUR":
        kw["spat_diag"] = True
    fr = g["form"] == "frame"
    roles = {}
    for r, a in (("y", "bigy"), ("x", "bigX"), ("yend", "bigyend"), ("q", "bigq")):
        if kw.get(a) is not None:
            roles[r] = [("df", kw[a][1] if r == "y" else kw[a][1][0])] if fr else [(a, 1)]
    return est, kw, roles


def malform(c, i, kw, roles, role, kind):
    """change one argument; None when the malformation has no meaning here"""
    rng = c.sub(62000 + i)
    if role == "w":
        w, n = kw["w"], kw["w"].n
        kw["w"] = {"none": lambda: None, "size": lambda: make_w("rook", n + 3, rng)[0], "diagonal": lambda: diagonal(w), "kernel": lambda: make_kernel(n, rng)[0]}[kind]()
        return kw
    if role == "regimes":
        r = list(kw["regimes"])
        kw["regimes"] = {"one": lambda: [r[0]] * len(r), "every": lambda: list(range(len(r))), "short": lambda: r[:-1], "set": lambda: set(range(len(r)))}[kind]()
        return kw
    if role == "robust":
        if kind == "unknown":
            kw["robust"] = "huber"
            kw.pop("gwk", None)
        else:
            kw["robust"] = "hac"
            kw.pop("gwk", None)
            if kind == "not-kernel":
                kw["gwk"] = kw["w"]
            elif kind == "bad-diagonal":
                k = make_kernel(kw["w"].n, rng)[0]
                for j in k.id_order:
                    k.weights[j] = [v * .5 for v in k.weights[j]]
                k._reset()
                kw["gwk"] = k
        return kw
    if role == "slx_vars":
        kw["slx_vars"] = kw["slx_vars"] + [True]
        return kw
    if role == "cols2regi":
        kw["cols2regi"] = list(kw["cols2regi"])[:-1] if kind == "short" else list(kw["cols2regi"]) + [True]
        return kw
    a, key = roles[role][0]
    if kind == "missing":
        kw[a] = None
        return kw
    if a == "df" and kw["df"] is None:
        return None
    if a == "df":
        if kind not in ("nan", "inf", "text"):
            return None
        df = kw["df"].copy()
        col = df[key].astype(object if kind == "text" else float).copy()
        col.iloc[int(rng.integers(len(col)))] = {"nan": np.nan, "inf": np.inf, "text": "n/a"}[kind]
        df[key] = col
        kw["df"] = df
        return kw
    v = kw[a] if key is None else kw[a][key]
    frame = isinstance(v, (pd.DataFrame, pd.Series))
    m = np.array(v.to_numpy() if frame else v, float)
    j = tuple(int(rng.integers(k)) for k in m.shape)
    if kind in ("nan", "inf"):
        m[j] = {"nan": np.nan, "inf": [np.inf, -np.inf][i % 2]}[kind]
    elif kind == "text":
        m = m.astype(object) if i % 2 else m.astype(str)
        m[j] = "n/a"
    elif kind == "short":
        m = m[:-1]
    elif kind == "wide":
        m = np.hstack([m.reshape(len(m), -1), m.reshape(len(m), -1)])
    elif kind == "ragged":
        m = m[:, :-1] if i % 3 else np.hstack([m, m[:, :1] + 1])
        if i % 2:
            kw.pop("name_x", None)          # only the shape tells
    elif kind == "many":
        m = rng.normal(size=(len(m), len(m) + 5))
    elif kind == "cube":
        m = m.reshape(len(m), -1, 1)
    elif kind == "list":
        m = m.tolist()
        frame = False
    if frame and m.ndim <= 2 and kind not in ("many", "wide", "ragged"):
        ix = v.index[:len(m)]
        m = pd.Series(m.ravel(), index=ix, name=v.name) if isinstance(v, pd.Series) else pd.DataFrame(m, index=ix, columns=v.columns)
    if key is None:
        kw[a] = m
    else:
        kw[a] = {**kw[a], key: m}
    return kw


def diagonal(w):
    from libpysal.weights import W
    ids = list(w.id_order)
    nb = {k: list(w.neighbors[k]) for k in ids}
    wt = {k: list(w.weights[k]) for k in ids}
    nb[ids[0]].append(ids[0])
    wt[ids[0]].append(.5)
    return W(nb, wt, id_order=ids, silence_warnings=True)


def digest(v):
    """everything a caller can see of an argument"""
    import hashlib
    import libpysal
    def h(*parts):
        return hashlib.sha1(repr(parts).encode()).hexdigest()[:16]
    if isinstance(v, np.ndarray):
        return "array %s %s %s" % (v.dtype, v.shape, hashlib.sha1(np.ascontiguousarray(v).tobytes() if v.dtype != object else repr(v.tolist()).encode()).hexdigest()[:16])
    if isinstance(v, (pd.DataFrame, pd.Series)):
        cols = list(v.columns) if isinstance(v, pd.DataFrame) else [v.name]
        types = [str(t) for t in v.dtypes] if isinstance(v, pd.DataFrame) else [str(v.dtype)]
        return "frame %s %s %s" % (cols, types, h(v.to_numpy().tolist(), list(v.index)))
    if isinstance(v, libpysal.weights.W):
        s = v.sparse
        return "weights %s %d %s" % (v.transform, v.n, h(list(v.id_order), {k: list(v.neighbors[k]) for k in v.id_order}, {k: [float(q) for q in v.weights[k]] for k in v.id_order}, s.toarray().tolist()))
    if isinstance(v, dict):
        return "dict {%s}" % ", ".join("%r: %s" % (k, digest(q)) for k, q in v.items())
    if isinstance(v, (list, tuple)):
        return "%s [%s]" % (type(v).__name__, ", ".join(digest(q) for q in v)) if any(not isinstance(q, (str, int, float, bool, type(None))) for q in v) else repr(v)
    if isinstance(v, set):
        return "set %r" % sorted(v, key=repr)
    if hasattr(v, "toarray"):
        return "sparse " + digest(v.toarray())
    return "value %r" % (v,)
