---------------------------------- MODULE Inputs ----------------------------------
(* What a well-formed call is, for every estimator: its arguments, the ways in      *)
(* which each of them can be malformed, and the guards that stop a malformed call.  *)
EXTENDS Cat
Systems == {"SUR", "SURerrorGM", "SURerrorML", "SURlagIV", "ThreeSLS"}
Panels == {"PanelFE", "PanelRE", "Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error", "ML_LagFE", "ML_LagRE", "ML_ErrorFE", "ML_ErrorRE", "GM_KKP"}
Fam(e) == IF e \in Systems THEN "system" ELSE IF e \in Panels THEN "panel" ELSE IF e = "NSLX" THEN "nslx" ELSE "cross"
\* data arguments
DataRoles(c) ==
  CASE Fam(c.est) = "nslx" -> {"y", "x", "coords"}
    [] Fam(c.est) = "panel" -> {"y", "x"}
    [] OTHER -> {"y", "x"} \cup (IF c.ne > 0 THEN {"yend", "q"} ELSE {})
Frame(c) == c.form = "frame"
Wide(c) == Fam(c.est) = "panel" /\ c.form = "list"        \* one column per period
DataKinds(c, r) ==
  LET all == {"nan", "inf", "text"} IN
  CASE Fam(c.est) = "system" -> all \cup (IF Frame(c) THEN {} ELSE {"short"} \cup (IF r = "x" THEN {"many"} ELSE {})) \cup (IF r \in {"y", "x", "q"} THEN {"missing"} ELSE {})
    [] Fam(c.est) = "panel" -> all \cup {"short", "list", "cube", "missing"} \cup (IF r = "x" THEN {"many"} ELSE IF c.form = "none" THEN {"wide"} ELSE {}) \cup (IF r = "x" /\ Wide(c) THEN {"ragged"} ELSE {})
    [] OTHER -> all \cup {"short", "list", "cube"} \cup (IF r = "x" THEN {"many"} ELSE IF r = "y" THEN {"wide"} ELSE {}) \cup
                (IF r # "yend" \/ c.est \in Endo THEN {"missing"} ELSE {})
WKinds(c) ==
  CASE Fam(c.est) = "nslx" \/ c.est = "ThreeSLS" -> {}
    [] Fam(c.est) = "system" -> {"none", "size"}
    [] Fam(c.est) = "panel" -> {"none", "size", "diagonal", "kernel"}
    [] OTHER -> {"size", "diagonal"} \cup (IF c.est \in {"OLS", "TSLS", "Probit"} /\ c.slx = 0 THEN {} ELSE {"none"}) \cup (IF c.est = "OLS" /\ c.slx = 1 THEN {} ELSE {"kernel"})
Bads(c) ==
  UNION {{<<r, k>> : k \in DataKinds(c, r)} : r \in DataRoles(c)} \cup ({"w"} \X WKinds(c)) \cup
  (IF c.regi = 1 THEN {"regimes"} \X {"one", "every", "short", "set"} ELSE {}) \cup
  (IF c.est \in {"OLS", "TSLS", "GM_Lag"} THEN {"robust"} \X {"unknown", "no-kernel", "not-kernel", "bad-diagonal"} ELSE {}) \cup
  (IF c.mask # <<>> THEN {<<"slx_vars", "long">>} ELSE {}) \cup
  (IF c.regi = 1 /\ Fam(c.est) = "cross" /\ c.vk = "first" THEN {"cols2regi"} \X {"short", "long"} ELSE {})

\* The guards, in the order in which a call meets them, and what each one recognises
Guards == <<"arrays", "dependent", "endogenous", "instruments", "weights", "robust", "regimes", "selection", "columns">>
Recognises(gd, b) ==
  LET r == b[1]  k == b[2] IN
  CASE gd = "arrays" -> r \in {"y", "x", "yend", "q", "coords"} /\ k \in {"nan", "inf", "text", "short", "list", "cube", "many"}
    [] gd = "dependent" -> r = "y" /\ k \in {"wide", "missing"}
    [] gd = "endogenous" -> r = "yend" /\ k = "missing"
    [] gd = "instruments" -> r = "q" /\ k = "missing"
    [] gd = "weights" -> r = "w"
    [] gd = "robust" -> r = "robust"
    [] gd = "regimes" -> r = "regimes"
    [] gd = "selection" -> r = "slx_vars"
    [] OTHER -> r = "cols2regi" \/ (r \in {"x", "coords"} /\ k \in {"missing", "ragged"})
\* the first guard that stops the call; 0 when the call is accepted
Stopped(bad) == LET hit == {j \in DOMAIN Guards : \E b \in bad : Recognises(Guards[j], b)} IN IF hit = {} THEN 0 ELSE CHOOSE j \in hit : \A v \in hit : j <= v

\* calls whose inputs are tried
ICase(e, regi, ne, sl, form, vk, sep, nr) == Case(e, regi, 0, ne, sl, <<1, 1>>, "none", form, 0, vk, sep, nr, 0)
Forms == {"none", "list", "frame"}
InCross == {ICase(p[1], 0, p[2], sl, f, "all", 0, 0) : p \in EN(EstsC), sl \in {<<0, <<>> >>, <<1, <<1, 0>> >>, <<2, <<>> >>}, f \in Forms}
InRegimes == UNION {{ICase(p[1], 1, p[2], sl, f, v[1], v[2], 2) : sl \in {<<0, <<>> >>} \cup {q \in Slx(p[1], 1) : q = <<1, <<1, 0>> >>}, f \in Forms, v \in {<<"all", 0>>, <<"first", 0>>, <<"all", 1>>}} : p \in EN(EstsC \ {"Probit"})}
InSystems == {ICase(e, r, IF e = "ThreeSLS" THEN 1 ELSE ne, <<0, <<>> >>, f, "all", 0, 2 * r) : e \in Systems, r \in 0..1, ne \in 0..1, f \in Forms}
InPanels == {ICase(e, 0, 0, <<0, <<>> >>, f, "all", 0, 0) : e \in Panels, f \in Forms}
InNslx == {ICase("NSLX", 0, 0, <<0, <<>> >>, f, "all", 0, 0) : f \in {"none", "list"}}
InCalls == {q \in InCross \cup InRegimes \cup InSystems \cup InPanels \cup InNslx : ~(q.est \in {"SUR", "SURerrorGM", "SURerrorML"} /\ q.ne = 1) /\ ~(q.est = "GM_KKP" /\ q.form = "frame")}
================================================================================
