--------------------------------- MODULE Dispatch --------------------------------
(* Front ends and the estimator each call selects.                                  *)
EXTENDS Cat
Own == {"OLS", "TSLS", "GM_Lag", "ML_Lag", "ML_Error"}
Gmm == {"GM_Error", "GM_Endog_Error", "GM_Combo"}
Suffix(m) == CASE m = "het" -> "_Het" [] m = "hom" -> "_Hom" [] OTHER -> ""
\* the call of a front end that stands for a configuration of the catalogue
FrontOf(c) == IF c.est \in Own THEN c.est ELSE "GMM_Error"
MethodOf(c) == CASE c.est \in {g \o "_Het" : g \in Gmm} -> "het" [] c.est \in {g \o "_Hom" : g \in Gmm} -> "hom" [] c.est \in Gmm -> "kp98" [] OTHER -> "none"
AddWy(c) == IF c.est \in {"GM_Combo", "GM_Combo_Het", "GM_Combo_Hom"} THEN 1 ELSE 0
\* what a call selects
Resolve(front, method, endog, wy, regi) ==
  (IF front # "GMM_Error" THEN front
   ELSE IF wy = 1 THEN "GM_Combo" \o Suffix(method)
   ELSE IF endog = 1 THEN "GM_Endog_Error" \o Suffix(method)
   ELSE "GM_Error" \o Suffix(method)) \o (IF regi = 1 THEN "_Regimes" ELSE "")
Endog(c) == IF c.ne > 0 THEN 1 ELSE 0
Target(c) == Resolve(FrontOf(c), MethodOf(c), Endog(c), AddWy(c), c.regi)
================================================================================
