"""Regime separation restricts W to each regime; parallel equals serial."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from regrun import *
from pool import scheduled
import contextlib
import zlib

INV = ["OwnResult", "OwnData", "NotStuck", "OnceEach"]
ATTR = ["betas", "vm", "u", "predy", "utu", "sig2", "e_filtered", "predy_e", "e_pred", "rho", "lam", "logll", "n", "k", "iteration"]


def dense(w):
    return w.sparse.toarray() if w is not None else None


def sub_w(s, rows, std):
    """the weights among the given rows, built from the neighbour lists"""
    from libpysal.weights import W
    o, w = s["w"].id_order, s["w"]
    ids = [o[k] for k in rows]
    inn = set(ids)
    orig = w.transformations["O"]
    nb, wt = {}, {}
    for a in ids:
        p = [(b, v) for b, v in zip(w.neighbors[a], orig[a]) if b in inn]
        nb[a], wt[a] = [b for b, _ in p], [v for _, v in p]
    out = W(nb, wt, id_order=ids, silence_warnings=True)
    if std:
        out.transform = "r"
    return out


def options(cfg, i):
    e, k = cfg["est"], {}
    if e in ("OLS", "TSLS", "GM_Lag"):
        k["robust"] = ["white", None][i % 2]
        k["sig2n_k"] = bool((i // 2) % 2)
    if e == "GM_Lag" or "Combo" in e:
        k["w_lags"] = 1 + (i % 3 if e == "GM_Lag" else i % 2)
        k["lag_q"] = bool((i + 1) % 4)
    if "Het" in e:
        k.update(max_iter=1 + i % 3, step1c=bool(i % 2), epsilon=1e-7)
    if "Hom" in e:
        k.update(max_iter=1 + i % 3, A1=["hom_sc", "het", "hom"][i % 3], epsilon=1e-7)
    if e in ("ML_Lag", "ML_Error"):
        k["method"] = ["full", "ord", "LU"][i % 3]
    if e in ("GM_Lag", "ML_Lag"):
        k.update(spat_diag=False, spat_impacts=None)
    return k


def summary_of(reg):
    return str(zlib.crc32(re.sub(r"(?m)^.*(Date|Time).*$", "", str(get(reg, "summary"))).encode()))


def record(reg):
    o = dict(snap(reg, ["betas", "vm", "u", "predy", "e_filtered", "predy_e", "e_pred", "kr", "kf", "nr", "n"]))
    o.update(multi_snap(reg, ATTR))
    return o


def body(c):
    gen = c.generate("M08", invariants=INV, constants="CONSTANT NR = %d" % (3 if QUICK else 4))
    scheds = sorted(gen["scheds"], key=lambda q: (len(q), q))
    two, three = [q for q in scheds if len(q) == 6], [q for q in scheds if len(q) == 9]
    cfgs = sorted(gen["cfgs"], key=lambda g: json.dumps(g, sort_keys=True))
    by = {}
    for g in cfgs:
        by.setdefault((g["est"], len(g["creg"]), g["slx"]), []).append(g)
    cfgs = [g for k in sorted(by) for g in pick(c, by[k], (6 if not k[1] and not k[2] else 3) if QUICK else 60)]
    import spreg

    def one(job):
        i, g = job
        cfg, s, extra, kw, alt = data(i, g)
        reg, exc = fit(s, cfg, alt=alt, **kw)
        e = {"op": cfg["est"], "cfg": dict(g), "in": {k: s["in"][k] for k in ("labs", "ri", "W0", "y")},
             "exc": exc, "obs": {}, "w": [], "wr": [], "sep": [], "sepexc": [], "par": [], "names": "null", "summary": "null", "kz": 0}
        if reg is not None:
            e["obs"] = record(reg)
            e["names"], e["summary"] = coef_names(reg), summary_of(reg)
        x = s["x"]
        if cfg["slx"]:
            x = np.hstack((x, s["W"] @ x))
        x = np.delete(x, [j - 1 for j in cfg["creg"]], 1)
        lag = cfg["est"] in LAGSEP
        lam = "Het" in cfg["est"] or "Hom" in cfg["est"] or cfg["est"] == "ML_Error"
        e["kz"] = 1 + x.shape[1] + cfg["ne"] + int(lag) + int(lam)
        keys = list(reg.multi) if reg is not None else []
        for r in range(1, cfg["nr"] + 1):
            rows = [k for k, v in enumerate(s["ri"]) if v == r]
            m = reg.multi[keys[r - 1]] if r <= len(keys) else None
            mw = get(m, "w") if m is not None else None
            e["w"].append(enc(dense(mw)) if mw is not None and hasattr(mw, "sparse") else "absent")
            w_r = sub_w(s, rows, cfg["std"])
            a = dict(extra)
            if cfg["est"] not in ("OLS", "TSLS"):
                a["w"] = w_r
            if cfg["est"] == "TSLS":
                a["nonspat_diag"] = False
            if cfg["ne"]:
                a.update(yend=s["yend"][rows], q=s["q"][rows])
            e["wr"].append(enc(dense(w_r)))
            f, fe = call(getattr(spreg, cfg["est"]), s["y"][rows], x[rows], **a)
            e["sep"].append(snap(f, ATTR) if f is not None else "null")
            e["sepexc"].append(fe)
        if cfg["nr"] <= 3 and reg is not None:
            pool = two if cfg["nr"] == 2 else three
            for q in range(1 if QUICK else 4):
                sch = pool[(i * 7 + q * 31) % len(pool)]
                e["par"].append(parallel(sch, s, cfg, alt, kw))
        return e

    def data(i, g):
        cfg = dict(g, one=0, vary=[1] * (g["kx"] + g["ne"]), sep=1)
        n = int(cfg["nr"] * (20 + 4 * (cfg["kx"] + cfg["ne"] + cfg["slx"])) + i % 5)
        s = reg_scen(c, i, cfg, n, wkind=["rook", "knn", "gen"][i % 3], wt="o", rho=0.3)
        if cfg["std"]:
            s["w"].transform = "r"
        s["W"] = dense(s["w"])
        extra = options(cfg, i)
        kw = dict(extra)
        if cfg["slx"]:
            kw.update(slx_lags=cfg["slx"], w=s["w"])
        return cfg, s, extra, kw, 1 if cfg["slx"] else i % 2

    def parallel(sch, s, cfg, alt, kw):
        with contextlib.ExitStack() as st:
            run = st.enter_context(scheduled(sch)) if sch != "processes" else None
            p, pe = fit(s, cfg, alt=alt, cores=True, **kw)
        return {"sched": sch, "jobs": len(run.jobs) if run else -1, "exc": pe, "obs": record(p) if p is not None else {},
                "names": coef_names(p) if p is not None else "null", "summary": summary_of(p) if p is not None else "null"}

    jobs = list(enumerate(cfgs))
    ev = pmap(one, jobs)
    last = {}
    for i, g in jobs:      # real worker processes (not from within a worker)
        if last.get(g["est"], 0) < (1 if QUICK else 6) and ev[i]["exc"] is None and g["nr"] <= 3:
            last[g["est"]] = last.get(g["est"], 0) + 1
            cfg, s, extra, kw, alt = data(i, g)
            ev[i]["par"].append(parallel("processes", s, cfg, alt, kw))
    c.validate("C08", ev)


main("C08", body)
