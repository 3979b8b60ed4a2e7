"""Non-spatial diagnostics equal their formulas."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from scen import *


def rec(d, key):
    return enc((d[key], d["df"], d.get("pvalue", d.get("p-value")))) if isinstance(d, dict) else enc(d)


def body(c):
    import spreg
    cfgs = c.generate("M10", invariants=["AllPairs", "AtMost", "LinearTermsIn"])
    cfgs = [dict(g, white=w, r=1 + (j + w) % len(g["kinds"]), nothing=False) for j, g in enumerate(cfgs) for w in (0, 1)]
    cfgs = pick(c, cfgs, 240 if QUICK else None) * (1 if QUICK else 4)

    def one(job):
        i, cfg = job
        rng = c.sub(i)
        kx = len(cfg["kinds"])
        n = int(34 + i % 9)
        for t in range(30):
            x = xdata(n, kx, rng, ["int", "float", "pos"][i % 3])
            cat = rng.integers(0, kx + 1, n)
            for j, k in enumerate(cfg["kinds"]):
                if k == "e":           # one classification: the dummies exclude each other
                    x[:, j] = (cat == j)
                elif k == "d":
                    x[:, j] = rng.integers(0, 2, n)
                elif k == "s":
                    x[:, j] = rng.integers(0, 2, n) * 2 - 1
                elif i % 7 == 0:
                    x[:, j] += 60      # ill-conditioned: White refuses
            one = np.column_stack([np.ones(n), x])
            prods = {tuple(one[:, a] * one[:, b]) for a in range(kx + 1) for b in range(a, kx + 1)}
            prods = [p for p in prods if len(set(p)) > 1]
            if np.linalg.matrix_rank(one) == kx + 1 and len(prods) == cfg["whdf"] == np.linalg.matrix_rank(
                    np.column_stack([np.ones(n)] + [np.array(p) for p in prods])) - 1:
                break      # products coincide only where their kinds say so
        w, W = make_w("ring" if i % 2 else "gen", n, rng, transform="r")
        u = rng.normal(size=(n, 1)) * (1 + np.abs(x[:, [0]]) / 4)
        ye = q = None
        inn = {"x": enc(x), "W": enc(W)}
        y = 3 + x.sum(1, keepdims=True) + 3 * u
        if cfg["ne"]:
            q = np.round(rng.normal(size=(n, cfg["ne"])), 2)
            ye = np.round(2 * q + u + rng.normal(size=(n, cfg["ne"])), 3)
            y = y + ye.sum(1, keepdims=True)
            inn.update(yend=enc(ye), q=enc(q))
        y = np.round(y, 3)
        inn["y"] = enc(y)
        kw = {"slx_lags": 1, "w": w} if cfg["slx"] else {}
        o = {}
        reg, exc = call(spreg.OLS, y, x, white_test=bool(cfg["white"]), vif=True, **kw)
        if reg is not None:
            def fns():
                o.update(snap(reg, ["r2", "ar2", "f_stat", "logll", "aic", "schwarz", "sig2ML", "mulColli"]))
                o["jarque_bera"] = rec(reg.jarque_bera, "jb")
                o["breusch_pagan"] = rec(reg.breusch_pagan, "bp")
                o["koenker_bassett"] = rec(reg.koenker_bassett, "kb")
                if hasattr(reg, "white"):
                    o["white"] = rec(reg.white, "wh")
                v = spreg.vif(reg)
                o["vif"] = enc(np.array([[float(np.asarray(a).ravel()[0]) for a in t] for t in v[1:]]))
                o["vif0"] = "missing" if not isinstance(v[0], tuple) else "tuple"
                o["cc_x"] = bool(spreg.constant_check(reg.x[:, 1:]))
                o["cc_xc"] = bool(spreg.constant_check(reg.x))
                o["f_sub"] = enc(spreg.f_stat(reg, df=cfg["r"]))
                o["ll_fn"] = enc(spreg.log_likelihood(reg))
                o["aic_fn"], o["sc_fn"] = enc(spreg.akaike(reg)), enc(spreg.schwarz(reg))
                from spreg.ols import BaseOLS
                b = BaseOLS(y, reg.x)
                o["aic_base"], o["sc_base"] = enc(spreg.akaike(b)), enc(spreg.schwarz(b))
                r0 = BaseOLS(y, reg.x[:, : reg.k - cfg["r"]])
                r0.logll = spreg.log_likelihood(r0)
                o["lr"] = rec(spreg.likratiotest(r0, reg), "likr")
                o["lr_rev"] = rec(spreg.likratiotest(reg, r0), "likr")
                if cfg["ne"]:
                    t = spreg.TSLS(y, x, ye, q, **kw)
                    o["dwh"] = enc(t.dwh)
                    o["dwh_fn"] = enc(spreg.dwh(t))
            _, exc = call(fns)
        return {"op": "diag", "cfg": cfg, "in": inn, "exc": exc, "obs": o}

    c.validate("C10", pmap(one, list(enumerate(cfgs))))


main("C10", body)
