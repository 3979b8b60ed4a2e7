----------------------------------- MODULE Cat -----------------------------------
(* The catalogue of cross-section estimators and the option combinations that      *)
(* change the set or order of their columns.                                       *)
EXTENDS Regi
Exog == {"OLS", "GM_Error", "GM_Error_Het", "GM_Error_Hom", "ML_Error", "ML_Lag", "Probit"}
Endo == {"TSLS", "GM_Endog_Error", "GM_Endog_Error_Het", "GM_Endog_Error_Hom"}
Maybe == {"GM_Lag", "GM_Combo", "GM_Combo_Het", "GM_Combo_Hom"}
EstsC == Exog \cup Endo \cup Maybe
LagEst == Maybe \cup {"ML_Lag"}
ErrEst == {"GM_Error", "GM_Error_Het", "GM_Error_Hom", "ML_Error", "GM_Endog_Error", "GM_Endog_Error_Het", "GM_Endog_Error_Hom", "GM_Combo", "GM_Combo_Het", "GM_Combo_Hom"}
Robs(est, regi) == CASE est = "OLS" -> {"none", "white", "hac"} [] est \in {"TSLS", "GM_Lag"} -> {"none", "white", "hac"} \cup (IF regi = 0 THEN {"ogmm"} ELSE {}) [] OTHER -> {"none"}
NE(est) == IF est \in Exog THEN {0} ELSE IF est \in Endo THEN {1, 2} ELSE {0, 1}
\* classes that take a selection of lagged variables
SlxVarsR == {"OLS", "TSLS", "GM_Lag", "GM_Error", "GM_Error_Het", "GM_Error_Hom", "ML_Error", "ML_Lag"}
Slx(est, regi) == {<<0, <<>> >>, <<1, <<>> >>, <<2, <<>> >>} \cup (IF regi = 0 \/ est \in SlxVarsR THEN {<<1, <<1, 0>> >>, <<1, <<0, 1>> >>, <<2, <<0, 1>> >>} ELSE {})
WL(est, ne) == IF est \notin Maybe THEN {<<1, 1>>} ELSE {1, 2} \X (IF ne = 0 THEN {1} ELSE {0, 1})
\* which columns vary over the regimes: m is the number of columns that can
VaryKinds == {"all", "first", "rest"}
Vec(kind, m) == [j \in 1..m |-> CASE kind = "all" -> 1 [] kind = "first" -> IF j = 1 THEN 1 ELSE 0 [] OTHER -> IF j = 1 THEN 0 ELSE 1] \o <<>>
NLag(sl) == sl[1] * (IF sl[2] = <<>> THEN 2 ELSE 1)
Case(e, regi, cst, ne, sl, wl, rob, form, one, vk, sep, nr, tex) ==
  [est |-> e, regi |-> regi, cst |-> cst, ne |-> ne, slx |-> sl[1], mask |-> sl[2], wl |-> wl[1], lagq |-> wl[2], robust |-> rob, form |-> form, one |-> one, vk |-> vk, sep |-> sep, nr |-> nr, tex |-> tex]
Const(c) == IF c.cst = 0 THEN {} ELSE {c.cst}
Nx(c) == IF c.cst = 0 THEN 2 ELSE 3
\* a kind "vec" lists the columns in c.vec
VaryV(c) == IF c.vk = "vec" THEN c.vec ELSE Vec(c.vk, 2 + NLag(<<c.slx, c.mask>>) + c.ne)
LagSep(c) == IF c.est \in LagEst THEN c.sep ELSE 0
\* constants in x, names from nothing, lists or data frames, LaTeX tables
Dress == {<<0, "none", 0>>, <<0, "list", 0>>, <<0, "frame", 0>>, <<2, "none", 0>>, <<2, "list", 0>>, <<2, "frame", 0>>, <<1, "list", 0>>, <<3, "frame", 0>>, <<0, "list", 1>>, <<2, "none", 1>>}
\* ... with the number of regimes
DressR == {<<0, "none", 2>>, <<0, "list", 3>>, <<2, "frame", 2>>}
EN(es) == UNION {{e} \X NE(e) : e \in es}
Plain == UNION {{Case(p[1], 0, d[1], p[2], sl, wl, rob, d[2], 0, "all", 0, 0, d[3]) : d \in Dress, sl \in Slx(p[1], 0), wl \in WL(p[1], p[2]), rob \in Robs(p[1], 0)} : p \in EN(EstsC)}
WithRegimes == UNION {{Case(p[1], 1, d[1], p[2], sl, wl, rob, d[2], one, vk, sep, d[3], 0) :
   d \in DressR, sl \in Slx(p[1], 1), wl \in {v \in WL(p[1], p[2]) : v[2] = 1}, rob \in Robs(p[1], 1), one \in 0..1, vk \in VaryKinds, sep \in 0..1} : p \in EN(EstsC \ {"Probit"})}
\* separate fits need all coefficients to vary in most classes
OK(c) == /\ (c.robust = "hac" => c.sep = 0)
         /\ (c.sep = 1 /\ c.est \notin {"OLS", "TSLS", "GM_Lag"} => c.one = 0 /\ c.vk = "all")
CatConfigs == {c \in Plain \cup WithRegimes : OK(c)}

\* the columns of a configuration, in the order of its coefficients
XB0(c) == XCols(Kept(Nx(c), Const(c)), c.mask, c.slx)
XB(c) == <<One>> \o Block("x", Kept(Nx(c), Const(c)), 0) \o SelectSeq(XB0(c), LAMBDA q: q.lag > 0)
EB(c) == Block("e", Upto(c.ne), 0) \o (IF c.est \in LagEst THEN <<Wy>> ELSE <<>>)
LamC == Col("lambda", 1, 0)
LB(c) == IF c.est \in ErrEst THEN <<LamC>> ELSE <<>>
VX(c) == <<1 - c.one>> \o SubSeq(VaryV(c), 1, Len(XB(c)) - 1)
VE(c) == SubSeq(VaryV(c), Len(XB(c)), Len(VaryV(c))) \o (IF c.est \in LagEst THEN <<LagSep(c)>> ELSE <<>>)
AllV(c) == c.one = 0 /\ c.vk = "all"
Multi(c) == c.regi = 1 /\ c.sep = 1 /\ AllV(c)
OneRegime(c, r) == LET b == XB(c) \o EB(c) \o LB(c) IN [j \in 1..Len(b) |-> RC(b[j], r)]
\* common coefficients of a regime model are marked 0
Cols0(c) == IF c.regi = 0 THEN OneRegime(c, 0)
            ELSE IF Multi(c) THEN FoldLeft(LAMBDA a, r: a \o OneRegime(c, r), <<>>, Upto(c.nr))
            ELSE RBlock(XB(c), VX(c), c.nr) \o (IF EB(c) = <<>> THEN <<>> ELSE RBlock(EB(c), VE(c), c.nr)) \o (IF LB(c) = <<>> THEN <<>> ELSE <<RC(LamC, 0)>>)
LabelOf(c, rc, nm, labs) ==
  LET base == IF rc.c.src = "lambda" THEN "lambda" ELSE Label(rc.c, nm) IN
  IF rc.r > 0 THEN labs[rc.r] \o "_" \o base ELSE IF c.regi = 0 \/ rc.c.src = "lambda" THEN base ELSE "_Global_" \o base
LabelsOf(c, nm, labs) == LET l == Cols0(c) IN [j \in 1..Len(l) |-> LabelOf(c, l[j], nm, labs)]
\* a lag term of x counts as exogenous
Kind(rc) == CASE rc.c.src = "one" -> "o" [] rc.c.src = "x" /\ rc.c.lag = 0 -> "x" [] rc.c.src = "x" -> "wx" [] rc.c.src = "e" -> "yend" [] rc.c.src = "y" -> "rho" [] OTHER -> "lambda"
================================================================================
