"""What the printed report of a system of equations says."""
from surs import *
import re

FLOAT = r"-?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)"
TESTROW = re.compile(r"\s*(\S.*?)\s{2,}(-?\d+)\s+(%s)\s+(%s)\s*$" % (FLOAT, FLOAT))


def nums(f):
    return enc(unnan([[float(v) for v in f]]))


def unnan(a):
    """a number that is not one (a statistic from a negative variance) stands for itself"""
    return np.nan_to_num(np.asarray(a, float), nan=987654321.)


def squash(s):
    return re.sub(r"\s+", "", s)


def report(text):
    top, eqs, end = {}, [], {"tests": [], "between": [], "lm": [], "corr": [], "corr_names": []}
    cur, where, acc = None, "top", None
    for q in text.split("\n"):
        m = re.match(r"SUMMARY OF EQUATION (\d+)$", q)
        if m:
            cur = {"eq": int(m.group(1)), "names": [], "vals": [], "lam": [], "lam_names": [], "inst": [], "end": [], "regimes": "absent", "chow": []}
            eqs.append(cur)
            where = "head"
            continue
        for head, w in (("REGRESSION DIAGNOSTICS", "tests"), ("OTHER DIAGNOSTICS - CHOW TEST BETWEEN EQUATIONS", "between"), ("DIAGNOSTICS FOR SPATIAL DEPENDENCE", "lm"),
                        ("ERROR CORRELATION MATRIX", "corr")):
            if q == head:
                where, cur = w, None
        if q.startswith("REGIMES DIAGNOSTICS - CHOW TEST WITHIN EQUATION"):
            where = "chow"
            continue
        if where in ("top", "head"):
            d = top if where == "top" else cur
            for k, v in re.findall(r"(\S[^:]*?)\s*:\s*(\S+)(?=\s|$)", q):
                d[{"Number of Equations": "n_eq", "Number of Observations": "n", "Log likelihood (SUR)": "llik", "Number of Iterations": "niter", "Log likel. (error)": "errllik",
                   "Log likel. (SUR error)": "surerrllik", "Dependent Variable": "dep", "Number of Variables": "k", "Mean dependent var": "mean", "Degrees of Freedom": "df",
                   "S.D. dependent var": "sd"}.get(k, "other")] = v if k == "Dependent Variable" else int(v) if re.fullmatch(r"-?\d+", v) else enc(float(v)) if re.fullmatch(FLOAT, v) else v
            if re.match(r"\s+Variable\s+Coefficient", q):
                where = "rows"
        elif where == "rows":
            if q.startswith("----"):
                where = "after" if cur["names"] else where
                continue
            f = re.split(r"\s{2,}", q.strip())
            lam = re.fullmatch(r"lambda_\d+", f[0]) is not None
            cur["lam_names" if lam else "names"].append(f[0])
            cur["lam" if lam else "vals"].append(nums(f[1:]))
        elif where == "after":
            if q.startswith(("Instrumented", "Instruments")):
                acc = []
                cur["end" if q.startswith("Instrumented") else "inst"] = acc
            if q.startswith("Regimes variable:"):
                cur["regimes"], acc = q.split(":")[1].strip(), None
            elif acc is not None and q.strip():
                acc.append(q)
            else:
                acc = None
        else:
            m = TESTROW.match(q)
            if where == "chow" and m:
                cur["chow"].append({"name": m.group(1), "df": int(m.group(2)), "w": enc(float(m.group(3))), "p": enc(float(m.group(4)))})
            elif where == "corr" and q.strip().startswith("EQUATION"):
                end["corr_names"] = re.split(r"\s{2,}", q.strip())
            elif where == "corr" and re.match(r"\s*-?[\d.]+\s", q + " "):
                end["corr"].append([float(v) for v in re.findall(r"-?\d+\.\d{6}", q)])
            elif where in ("tests", "between", "lm") and m:
                nm = m.group(1)
                cut = nm.endswith("...")
                end[where].append({"name": nm, "names": (nm[:-3] if cut else nm).split(", "), "cut": int(cut), "df": int(m.group(2)), "w": enc(float(m.group(3))), "p": enc(float(m.group(4)))})
    for e in eqs:
        for k in ("inst", "end"):
            t = squash("".join(e[k]))
            t = t.split(":", 1)[1] if ":" in t else ""
            e[k] = [v for v in t.split(",") if v]
    end["corr"] = enc(np.array(end["corr"])) if end["corr"] else "absent"
    return {"top": top, "eqs": eqs, "end": end}
