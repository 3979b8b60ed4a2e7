"""OLS equals the least-squares definition."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from lib import *

ATTRS = ["x", "betas", "predy", "u", "utu", "sig2", "sig2n", "sig2n_k", "xtx", "xtxi", "vm", "std_err", "t_stat",
         "r2", "ar2", "f_stat", "logll", "aic", "schwarz", "mean_y", "std_y", "n", "k", "name_x", "name_y", "output"]


def body(c):
    import spreg
    cfgs = c.generate("M01", invariants=["DesignIsXCols", "NoDuplicates", "LabelsInjective", "InterceptFirst",
                                         "NoConstantLeft"])
    cfgs = pick(c, cfgs, 260 if QUICK else None)
    reps = 1 if QUICK else 4

    def one(job):
        i, cfg = job
        rng = c.sub(i)
        n = int(rng.integers(16, 30))
        kx = cfg["kx"]
        x = xdata(n, kx, rng, ["int", "float", "pos", "intdtype"][i % 4])
        for j in cfg["const"]:
            x[:, j - 1] = [3, 0, -2][j % 3]
        y = xdata(n, 1, rng, ["float", "pos", "int"][i % 3])
        y = y + (x @ np.arange(1, kx + 1)).reshape(-1, 1)
        w, W = make_w(["rook", "knn", "gen", "ring"][i % 4], n, rng,
                      ids=None if i % 2 else ["r%02d" % v for v in rng.permutation(n)],
                      transform="r" if i % 3 else "o")
        names = ["ex%d" % (j + 1) for j in range(kx)]
        given = cfg["names"] == 1
        name_x, name_y = names, "why"
        xa, ya = x, y
        kw = {}
        if cfg["pandas"]:
            cols = names if given else ["col%d" % (j + 1) for j in range(kx)]
            if given:      # explicit names override the frame's
                xa = pd.DataFrame(x, columns=["z%d" % j for j in range(kx)], index=np.arange(n)[::-1] * 2)
                ya = pd.Series(y[:, 0], name="zz", index=np.arange(n)[::-1])
                kw = dict(name_x=list(names), name_y="why")
            else:
                xa = pd.DataFrame(x, columns=cols)
                ya = pd.Series(y[:, 0], name="target") if i % 2 else pd.DataFrame(y, columns=["target"])
                name_x, name_y = cols, "target"
        else:
            if given:
                kw = dict(name_x=list(names), name_y="why")
            else:
                keep = [j for j in range(kx) if (j + 1) not in cfg["const"]]
                name_x = ["" for _ in range(kx)]
                for p, j in enumerate(keep):
                    name_x[j] = "var_%d" % (p + 1)
                name_y = "dep_var"
            if i % 3 == 0:
                xa = np.asfortranarray(x)
            if i % 2 == 0:
                ya = y[:, 0]
        if cfg["slx"]:
            kw.update(slx_lags=cfg["slx"], w=w)
            if cfg["mask"]:
                kw["slx_vars"] = [bool(b) for b in cfg["mask"]]
        elif i % 5 == 0:
            kw["w"] = w
        reg, exc = call(spreg.OLS, ya, xa, sig2n_k=bool(cfg["n_k"]), vm=bool(i % 2), **kw)
        return {"op": "OLS", "cfg": cfg, "in": {"x": enc(x), "y": enc(y), "W": enc(W), "name_x": name_x, "name_y": name_y},
                "exc": exc, "obs": snap(reg, ATTRS) if reg is not None else {}}

    jobs = [(r * 100000 + i, g) for r in range(reps) for i, g in enumerate(cfgs)]
    c.validate("C01", pmap(one, jobs))


main("C01", body)
