"""Calls of every estimator with regimes, from the configurations of spec/RegLay."""
from regi import *

COMBO = ("GM_Combo", "GM_Combo_Het", "GM_Combo_Hom")
LAGSEP = COMBO + ("GM_Lag", "ML_Lag")
ERRSEP = ("OLS", "TSLS", "GM_Error", "GM_Endog_Error", "GM_Error_Het", "GM_Endog_Error_Het", "GM_Error_Hom", "GM_Endog_Error_Hom", "ML_Error")


def layout_kw(cfg, alt=0):
    kw = {"constant_regi": "one" if cfg["one"] else "many",
          "cols2regi": "all" if all(cfg["vary"]) and alt else [bool(b) for b in cfg["vary"]]}
    if cfg["est"] in LAGSEP:
        kw["regime_lag_sep"] = bool(cfg["sep"])
        if cfg["est"] in COMBO and alt:
            kw["regime_err_sep"] = bool(cfg["sep"])
    else:
        kw["regime_err_sep"] = bool(cfg["sep"])
    return kw


def fit(s, cfg, alt=0, regimes=None, **extra):
    import spreg
    kw = dict(s["kw"], **layout_kw(cfg, alt))
    if cfg["est"] not in ("OLS", "TSLS"):
        kw["w"] = s["w"]
    if cfg["ne"]:
        kw.update(yend=s["yend"], q=s["q"])
    kw.update(extra)
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    return call(getattr(spreg, cfg["est"] + "_Regimes"), s["y"], s["x"], regimes=s["regimes"] if regimes is None else regimes, **kw)


def coef_names(reg):
    v = get(reg, "name_z")
    return list(v if isinstance(v, list) else get(reg, "name_x"))
