---------------------------------- MODULE Head ----------------------------------
(* What the heading of a report says of the model: a set of traits for each model,   *)
(* and the words that carry each trait.                                              *)
EXTENDS Naturals
\* the words that carry a trait; a heading has the trait when it has one of them
Words(t) ==
  CASE t = "ols" -> {"ORDINARY LEAST SQUARES", "OLS"} [] t = "iv" -> {"2SLS", "TWO STAGE", "COMBO", "GNSM"}
    [] t = "weighted" -> {"SPATIALLY WEIGHTED", "SPATIAL COMBO", "COMBO"} [] t = "combo" -> {"COMBO", "GNSM"}
    [] t = "lag" -> {"SPATIAL TWO STAGE", "SPATIAL 2SLS", "SPATIAL LAG", "DURBIN"}
    [] t = "ml" -> {"ML ", "MAXIMUM LIKELIHOOD"} [] t = "error" -> {"SPATIAL ERROR"} [] t = "probit" -> {"PROBIT"}
    [] t = "slx" -> {"SLX", "DURBIN", "GNSM"} [] t = "regimes" -> {"REGIMES"} [] t = "regime" -> {"REGIME "}
    [] t = "het" -> {"HET)", "-HET"} [] t = "hom" -> {"HOM)", "-HOM"} [] t = "groupwise" -> {"GROUP-WISE HETEROSKEDASTICITY"}
    [] t = "panel" -> {"PANEL", "POOLED"} [] t = "fixed" -> {"FIXED EFFECTS"} [] t = "random" -> {"RANDOM EFFECTS"} [] t = "pooled" -> {"POOLED"}
    [] t = "sur" -> {"SUR"} [] t = "3sls" -> {"THREE STAGE LEAST SQUARES", "3SLS"} [] t = "gm" -> {"GM "} [] t = "gmm" -> {"GM ", "GMM "} [] OTHER -> {}
\* --------------------------------------------------- cross-section estimators
Fam(e) ==
  CASE e = "OLS" -> {"ols"} [] e = "Probit" -> {"probit"} [] e = "TSLS" -> {"iv"} [] e = "GM_Lag" -> {"iv", "lag"}
    [] e \in {"GM_Error", "GM_Error_Het", "GM_Error_Hom"} -> {"weighted"}
    [] e \in {"GM_Endog_Error", "GM_Endog_Error_Het", "GM_Endog_Error_Hom"} -> {"weighted", "iv"}
    [] e \in {"GM_Combo", "GM_Combo_Het", "GM_Combo_Hom"} -> {"weighted", "iv", "combo"}
    [] e = "ML_Error" -> {"ml", "error"} [] e = "ML_Lag" -> {"ml", "lag"} [] OTHER -> {}
IsHet(e) == e \in {"GM_Error_Het", "GM_Endog_Error_Het", "GM_Combo_Het"}
IsHom(e) == e \in {"GM_Error_Hom", "GM_Endog_Error_Hom", "GM_Combo_Hom"}
On(b, t) == IF b THEN {t} ELSE {}
\* multi: a fit for each regime; gw: one fit with a variance for each regime
Has(c, multi) == Fam(c.est) \cup On(c.slx > 0, "slx") \cup On(c.regi = 1, IF multi THEN "regime" ELSE "regimes")
  \cup On(IsHet(c.est), "het") \cup On(IsHom(c.est), "hom") \cup On(c.est = "OLS" /\ c.regi = 1 /\ c.sep = 1 /\ ~multi /\ c.robust = "none", "groupwise")
\* the traits a heading must not have: those told apart by words of their own
Lacks(c, multi) == ({"ols", "probit", "lag", "ml", "error", "combo", "slx", "regimes", "regime", "het", "hom", "groupwise"} \ Has(c, multi))
\* ----------------------------------------------------------- panels and systems
FamP(e) ==
  CASE e = "PooledOLS" -> {"pooled", "ols"} [] e = "PanelFE" -> {"panel", "fixed"} [] e = "PanelRE" -> {"panel", "random"}
    [] e = "GM_ErrorPooled" -> {"pooled", "error", "gmm"} [] e = "ML_ErrorPooled" -> {"pooled", "error", "ml"}
    [] e \in {"GM_KKP", "GM_ErrorRE"} -> {"panel", "random", "error", "gmm"}
    [] e \in {"ML_ErrorFE", "Panel_FE_Error"} -> {"panel", "fixed", "error", "ml"} [] e \in {"ML_ErrorRE", "Panel_RE_Error"} -> {"panel", "random", "error", "ml"}
    [] e \in {"ML_LagFE", "Panel_FE_Lag"} -> {"panel", "fixed", "lag", "ml"} [] e \in {"ML_LagRE", "Panel_RE_Lag"} -> {"panel", "random", "lag", "ml"}
    [] e = "SUR" -> {"sur"} [] e = "ThreeSLS" -> {"3sls"} [] e = "SURlagIV" -> {"sur", "lag"}
    [] e = "SURerrorGM" -> {"sur", "error", "gm"} [] e = "SURerrorML" -> {"sur", "error", "ml"} [] OTHER -> {}
HasP(c) == FamP(c.est) \cup On(c.slx > 0, "slx") \cup On(c.regi = 1, "regimes")
LacksP(c) == {"slx", "regimes", "fixed", "random", "pooled", "error", "lag", "ml", "ols", "3sls"} \ HasP(c)
PanelE == {"PooledOLS", "PanelFE", "PanelRE", "GM_ErrorPooled", "ML_ErrorPooled", "GM_ErrorRE", "ML_ErrorFE", "ML_ErrorRE", "ML_LagFE", "ML_LagRE"}
SystemE == {"SUR", "ThreeSLS", "SURlagIV", "SURerrorGM", "SURerrorML"}
================================================================================
