"""Calls of every cross-section estimator, from the configurations of spec/Cat."""
from regi import *

NUM = re.compile(r"(?:-?\d+\.\d+(?:[eE][-+]?\d+)?|-?\d+|nan|-?inf)$")


def complete(g):
    """the derived fields of a configuration"""
    kx = g.get("wide", 2)
    m = kx + g["slx"] * (sum(g["mask"]) or kx) + g["ne"]
    g.update(kx=kx + bool(g["cst"]), const=[g["cst"]] if g["cst"] else [], nq=g["ne"] + 1 if g["ne"] else 0,
             vary={"all": [1] * m, "first": [1] + [0] * (m - 1), "rest": [0] + [1] * (m - 1)}[g["vk"]])
    return g


def build(c, i, g, n=None, kinds=("rook", "knn", "gen"), wt="r", rho=.3):
    """class name, keyword arguments (y, x, w, ... included), scenario"""
    complete(g)
    n = n or int((g["nr"] or 1) * (26 + 3 * len(g["vary"])) + 10 + i % 5)
    kind = kinds[(i // 2) % len(kinds)]
    form = g["form"]
    if g["regi"]:
        s = reg_scen(c, i, g, n, kind="int" if form == "none" else None, wkind=kind, wt=wt, given=form != "none", rho=rho)
    else:
        s = scen(c, i, g, n=n, wkind=kind, wt=wt, given=form != "none", rho=rho)
        s["labs"] = []
    if g["est"] == "Probit":
        u = s["y"] - np.median(s["y"]) + s["rng"].normal(size=s["y"].shape) * s["y"].std() * 1.2
        s["y"] = (u > 0).astype(int)
        s["in"]["y"] = enc(s["y"])
    kw = dict(y=s["y"], x=s["x"], w=s["w"])
    kw.update({k: (list(v) if isinstance(v, list) else v) for k, v in s["kw"].items()})
    if g["ne"]:
        kw.update(yend=s["yend"], q=s["q"])
    if form == "frame":
        kw["y"] = [pd.DataFrame(s["y"], columns=["why"]), pd.Series(s["y"].ravel(), name="why")][i % 2]
        kw["x"] = pd.DataFrame(s["x"], columns=s["name_x"])
        if g["ne"]:
            kw["yend"] = pd.DataFrame(s["yend"], columns=s["name_yend"])
            kw["q"] = pd.DataFrame(s["q"], columns=s["name_q"])
            if g["ne"] == 1 and i % 4 > 1:
                kw["yend"] = kw["yend"].iloc[:, 0]
        for k in ("name_y", "name_x", "name_yend", "name_q"):
            kw.pop(k, None)
    if g["slx"]:
        kw["slx_lags"] = g["slx"]
        if g["mask"]:
            kw["slx_vars"] = [bool(b) for b in g["mask"]]
    if g["est"] in ("GM_Lag", "GM_Combo", "GM_Combo_Het", "GM_Combo_Hom"):
        kw.update(w_lags=g["wl"], lag_q=bool(g["lagq"]))
    if g["robust"] != "none":
        kw["robust"] = g["robust"]
        if g["robust"] == "hac":
            kw["gwk"] = make_kernel(n, s["rng"])[0]
    elif g["est"] == "GM_Lag" and g["regi"]:
        kw["robust"] = None
    if g["regi"]:
        kw.update(regimes=s["regimes"], constant_regi="one" if g["one"] else "many",
                  cols2regi="all" if g["vk"] == "all" and i % 2 else [bool(v) for v in g["vary"]])
        lag = g["est"] in ("GM_Lag", "ML_Lag") or g["est"].startswith("GM_Combo")
        kw["regime_lag_sep" if lag else "regime_err_sep"] = bool(g["sep"])
        if lag and g["est"] != "ML_Lag" and (g["est"] != "GM_Lag" or i % 2):
            kw["regime_err_sep"] = bool(g["sep"])
        if g["est"] == "GM_Lag":
            kw["regime_err_sep"] = bool(g["sep"])
    if g["tex"]:
        kw["latex"] = True
    return g["est"] + ("_Regimes" if g["regi"] else ""), kw, s


def run(name, kw):
    import spreg
    return call(getattr(spreg, name), **kw)


def coef_names(reg):
    v = get(reg, "name_z")
    return list(v if isinstance(v, list) else get(reg, "name_x"))


def printed(text, tex=False):
    """what a printed summary says: one record per equation"""
    out = []
    lines = text.split("\n")
    cur, where_ = None, "top"
    for q in lines:
        if q.startswith("SUMMARY OF OUTPUT"):
            cur, where_ = {"title": q.split(": ", 1)[1], "head": {}, "rows": [], "tests": [], "global": [], "said": []}, "top"
            out.append(cur)
            continue
        if cur is None:
            continue
        if q.startswith(("White Standard Errors", "HAC Standard Errors", "Optimal GMM used")):
            cur["errors"] = cur.get("errors", []) + [q.split(":")[0].strip()]
            if ":" in q:
                cur["kernel"] = q.split(":", 1)[1].strip()
            continue
        if q.startswith("Spatial Pseudo R-squared"):
            cur["said"].append("Spatial Pseudo R-squared")
        if q.startswith(("GLOBAL DIAGNOSTICS", "REGIMES DIAGNOSTICS", "COEFFICIENTS VARIANCE MATRIX")):
            where_ = "end"
        elif re.match(r"\s+Variable\s+Coefficient", q) or q.startswith("Variable & "):
            where_ = "rows"
        elif where_ == "rows" and (q.startswith("----") or q.startswith("\\bottomrule")) and cur["rows"]:
            where_ = "mid"
        elif where_ == "mid" and re.match(r"\s+Variable\s+(VIF|Direct|Slope)", q):
            where_ = "skip"
        elif where_ == "skip" and not q.strip():
            where_ = "mid"
        elif where_ == "top":
            for k, v in re.findall(r"([A-Z%][^:]*?)\s*:\s*(-?[\d.]+(?:e[-+]?\d+)?)(?=\s|$)", q):
                cur["head"][re.split(r"\s{2,}", k.strip())[-1]] = v
        elif where_ == "rows":
            f = [a.strip() for a in q.rstrip("\\ ").split("&")] if tex else re.split(r"\s{2,}", q.strip())
            if len(f) >= 2 and all(NUM.match(a) for a in f[1:]):
                cur["rows"].append([f[0].replace("\\_", "_")] + f[1:])
        elif where_ in ("mid", "end"):
            m = re.match(r"(\S.*?)\s{2,}(-?[\d.]+)\s+(-?[\d.]+|nan)\s+(-?[\d.]+|nan)\s*$", q)
            if m:
                cur["tests" if where_ == "mid" else "global"].append(list(m.groups()))
    return out


def sections(text):
    """the parts of a printed summary that printed() passes over: Chow table, covariance matrix, variance inflation, instruments"""
    o = {"chow": [], "vm_names": "absent", "vm": "absent", "vif": [], "inst": [], "end": [], "impacts": []}
    where, acc, vm = None, None, []
    squash = lambda v: re.sub(r"\s+", "", v)
    for q in text.split("\n"):
        if re.match(r"\s+VARIABLE\s+DF\s+VALUE\s+PROB", q):
            where = "chow"
            continue
        if q.startswith("COEFFICIENTS VARIANCE MATRIX"):
            where = "vm"
            continue
        if re.match(r"\s+Variable\s+VIF", q):
            where = "vif"
            continue
        if re.match(r"\s+Variable\s+Direct", q):
            where = "impacts"
            o["impacts"].append([])
            continue
        if q.startswith(("Instrumented:", "Instruments")):
            acc = []
            o["end" if q.startswith("Instrumented") else "inst"].append(acc)
            where = "inst"
        if where == "inst":
            if q.startswith(("Instru", "      ")) and q.strip():
                acc.append(q)
            else:
                where = None
        elif where == "chow":
            m = re.match(r"\s*(\S.*?)\s{2,}(-?\d+)\s+(-?[\d.]+|-?nan|-?inf)\s+(-?[\d.]+|nan)\s*$", q)
            if m:
                o["chow"].append({"name": m.group(1), "df": int(m.group(2)), "w": float(m.group(3)), "p": float(m.group(4))})
            else:
                where = None
        elif where == "vm" and q.strip() and not q.startswith("-----"):
            if q.startswith("===="):
                where = None
            elif o["vm_names"] == "absent":
                o["vm_names"] = squash(q)
            else:
                vm.append([float(v) for v in re.findall(r"-?\d+\.\d{6}|nan", q)])
        elif where in ("vif", "impacts"):
            f = re.split(r"\s{2,}", q.strip())
            if len(f) > 2 and all(NUM.match(v) for v in f[1:]):
                (o["vif"] if where == "vif" else o["impacts"][-1]).append({"name": f[0], "v": enc(np.array([[float(v) for v in f[1:]]]))})
            else:
                where = None
    if vm and len({len(r) for r in vm}) == 1:
        o["vm"] = enc(np.array(vm))
    for k in ("inst", "end"):
        o[k] = [[v for v in squash("".join(l)).partition(":")[2].split(",") if v] for l in o[k]]
    return o


HEAD = {"R-squared": ("r2", 4), "Adjusted R-squared": ("ar2", 4), "Pseudo R-squared": ("pr2", 4), "Spatial Pseudo R-squared": ("pr2_e", 4),
        "Sum squared residual": ("utu", 0), "Sigma-square": ("sig2", 3), "S.E. of regression": ("sqrt sig2", 3), "F-statistic": ("f_stat 0", 4),
        "Prob(F-statistic)": ("f_stat 1", -4), "Log likelihood": ("logll", 3), "Akaike info criterion": ("aic", 3), "Schwarz criterion": ("schwarz", 3),
        "S.E of regression": ("sqrt sig2", 4), "Mean dependent var": ("mean_y", 4), "S.D. dependent var": ("std_y", 4),
        "S.E of regression ML": ("sqrt sig2n", 4), "Fixed-effects mean": ("mean_mu_i", 4)}
TESTS = {"Jarque-Bera": ("jarque_bera", "jb"), "Breusch-Pagan test": ("breusch_pagan", "bp"), "Koenker-Bassett test": ("koenker_bassett", "kb"), "White": ("white", "wh"),
         "Moran's I (error)": "moran_res", "Robust LM (lag)": "rlm_lag", "Robust LM (error)": "rlm_error", "Lagrange Multiplier (lag)": "lm_lag",
         "Lagrange Multiplier (error)": "lm_error", "Lagrange Multiplier (SARMA)": "lm_sarma", "LM test for WX": "lm_wx", "Robust LM WX test": "rlm_wx",
         "Robust LM Lag - SDM": "rlm_durlag", "Joint test for SDM": "lm_spdurbin", "Anselin-Kelejian Test": "ak_test", "Common Factor Hypothesis Test": "cfh_test",
         "Durbin-Wu-Hausman test": "dwh"}


def num(v):
    return float(np.asarray(v, float).ravel()[0])


def attribute(reg, path):
    f = path.split()
    v = get(reg, f[1] if f[0] == "sqrt" else f[0])
    if isinstance(v, str) or v is None:
        return None
    if f[0] == "sqrt":
        return num(v) ** .5
    return num(v[int(f[1])]) if len(f) > 1 else num(v)


def pairs(reg, p):
    """printed numbers next to the attributes they show"""
    out = []
    for k, v in p["head"].items():
        path, d = HEAD.get(k, (None, 0))
        if k == "Sigma-square ML":
            path, d = ("sig2n", 3) if "OLS" in type(reg).__name__ or hasattr(reg, "f_stat") else ("sig2", 4)
        a = attribute(reg, path) if path else None
        if a is not None and np.isfinite(a):
            dec = len(v.split(".")[1]) if "." in v and "e" not in v else 0
            tol = 10.0 ** -dec / 2 if d > 0 and d != -4 else abs(a) * (6e-4 if d == -4 else 6e-6)
            if d == 4 and path == "sqrt sig2n":
                tol = abs(a) * 6e-4           # five significant digits
            out.append({"what": k, "shown": enc(float(v)), "value": enc(a), "tol": enc(float(max(tol * 1.01, 1e-300)))})
    for name, df, val, pr in p["tests"]:
        t = TESTS.get(name)
        if t is None or val == "nan":
            continue
        a = get(reg, t[0] if isinstance(t, tuple) else t)
        if isinstance(a, str):
            continue
        st, pv = (a[t[1]], a["pvalue"]) if isinstance(t, tuple) else (a[-2], a[-1])
        out.append({"what": name, "shown": enc(float(val)), "value": enc(num(st)), "tol": enc(.000506)})
        out.append({"what": name + " p", "shown": enc(float(pr)), "value": enc(num(pv)), "tol": enc(.0000506)})
        if isinstance(t, tuple):
            out.append({"what": name + " df", "shown": enc(float(df)), "value": enc(float(a["df"])), "tol": enc(1e-9)})
        elif name == "Moran's I (error)":
            out.append({"what": name + " I", "shown": enc(float(df)), "value": enc(num(a[0])), "tol": enc(.0000506)})
    return out


def attributes(reg):
    """every public attribute with a value that can be compared"""
    o = {"names": []}
    names = {k for k in list(vars(reg)) + dir(type(reg)) if not k.startswith("_")}
    for k in sorted(names):
        v = get(reg, k)
        if callable(v) or k in ("w", "multi", "gwk", "results", "names"):
            continue
        if isinstance(v, pd.DataFrame):
            t = table(reg, k)
            for q in sorted(t):
                m = isinstance(t[q], dict)
                o["%s.%s" % (k, q)] = {"kind": "matrix" if m else "list", "value": t[q]}
            continue
        try:
            z = enc(v)
        except Exception:
            continue
        if isinstance(z, dict) and "$m" in z:
            o[k] = {"kind": "matrix", "value": z}
        elif isinstance(z, str):
            o[k] = {"kind": "text", "value": z}
        elif isinstance(z, (bool, int)):
            o[k] = {"kind": "number", "value": int(z)}
        elif isinstance(z, list) and z and all(isinstance(q, str) for q in z):
            o[k] = {"kind": "list", "value": z}
        elif isinstance(z, dict) and z and all(isinstance(q, dict) and "$m" in q for q in z.values()):
            for q in z:
                o["%s.%s" % (k, q)] = {"kind": "matrix", "value": z[q]}
        elif isinstance(z, list) and z and all(isinstance(q, dict) and "$m" in q for q in z):
            for j, q in enumerate(z):
                o["%s.%d" % (k, j)] = {"kind": "matrix", "value": q}
    for r, m in (get(reg, "multi").items() if isinstance(get(reg, "multi"), dict) else ()):
        for k in ("betas", "vm", "u"):
            o["multi.%s.%s" % (r, k)] = {"kind": "matrix", "value": enc(np.asarray(get(m, k), float))}
    o["names"] = sorted(k for k in o if k != "names")
    return o
