--------------------------------- MODULE RegLay --------------------------------
(* Layout of the coefficients of every model with regimes, and the contrasts of   *)
(* the tests of coefficient stability (Chow).                                      *)
(*  c: [est, kx, ne, nr, one, vary, sep]; vary: the x, then the e                   *)
EXTENDS Regi
Gm == {"GM_Error", "GM_Endog_Error", "GM_Combo"}
Het == {"GM_Error_Het", "GM_Endog_Error_Het", "GM_Combo_Het"}
Hom == {"GM_Error_Hom", "GM_Endog_Error_Hom", "GM_Combo_Hom"}
Combos == {"GM_Combo", "GM_Combo_Het", "GM_Combo_Hom"}
Endogs == {"TSLS", "GM_Endog_Error", "GM_Endog_Error_Het", "GM_Endog_Error_Hom"}
Exogs == {"OLS", "GM_Error", "GM_Error_Het", "GM_Error_Hom", "ML_Error", "ML_Lag"}
LagType(c) == c.est \in Combos \cup {"GM_Lag", "ML_Lag"}
LamType(c) == c.est \in Gm \cup Het \cup Hom \cup {"ML_Error"}
\* lambda's variance is estimated
LamVar(c) == c.est \in Het \cup Hom \cup {"ML_Error"}
Ests == Endogs \cup Exogs \cup Combos \cup {"GM_Lag"}
Lam == Col("lambda", 1, 0)
AllV(c) == c.one = 0 /\ \A j \in 1..Len(c.vary) : c.vary[j] = 1
MultiFit(c) == c.sep = 1 /\ AllV(c)
XB(c) == <<One>> \o Block("x", Upto(c.kx), 0)
EB(c) == Block("e", Upto(c.ne), 0) \o (IF LagType(c) THEN <<Wy>> ELSE <<>>)
VXc(c) == <<1 - c.one>> \o SubSeq(c.vary, 1, c.kx)
VEc(c) == SubSeq(c.vary, c.kx + 1, c.kx + c.ne) \o (IF LagType(c) THEN <<c.sep>> ELSE <<>>)
One1(c, r) == LET b == XB(c) \o EB(c) \o (IF LamType(c) THEN <<Lam>> ELSE <<>>) IN [j \in 1..Len(b) |-> RC(b[j], r)]
Layout(c) == IF MultiFit(c) THEN FoldLeft(LAMBDA a, r: a \o One1(c, r), <<>>, Upto(c.nr))
             ELSE RBlock(XB(c), VXc(c), c.nr) \o RBlock(EB(c), VEc(c), c.nr) \o (IF LamType(c) THEN <<RC(Lam, 0)>> ELSE <<>>)
LayLabel(rc, nm, labs) == IF rc.c.src = "lambda" THEN (IF rc.r = 0 THEN "lambda" ELSE labs[rc.r] \o "_lambda") ELSE RegLabel(rc, nm, labs)
LayLabels(c, nm, labs) == LET l == Layout(c) IN [j \in 1..Len(l) |-> LayLabel(l[j], nm, labs)]
\* the columns whose stability is tested, in the order of the tests
Tested(c) == IF MultiFit(c) THEN XB(c) \o EB(c) \o (IF LamVar(c) THEN <<Lam>> ELSE <<>>)
             ELSE Vary(XB(c), VXc(c)) \o Vary(EB(c), VEc(c))
\* coefficients with an estimated variance
WithVar(c) == LET l == Layout(c) IN IF LamType(c) /\ ~LamVar(c) THEN SelectSeq(l, LAMBDA q: q.c.src # "lambda") ELSE l
Pos(l, rc) == CHOOSE j \in 1..Len(l) : l[j] = rc
\* contrast rows of column v: regime `base` minus each other one, as <<plus, minus>>
Contrast(c, v, base) ==
  LET l == WithVar(c)  o == SelectSeq(Upto(c.nr), LAMBDA r: r # base)
  IN [j \in 1..Len(o) |-> <<Pos(l, RC(v, base)), Pos(l, RC(v, o[j]))>>]
\* common exogenous and regime-specific endogenous variables together
Mixed(c) == ~MultiFit(c) /\ (\E j \in 1..Len(VXc(c)) : VXc(c)[j] = 0) /\ (\E j \in 1..Len(VEc(c)) : VEc(c)[j] = 1)
\* positions the tree takes in that case: as if the common coefficients came last
AsIsLayout(c) ==
  LET f(cs, vs) == FoldLeft(LAMBDA acc, r: acc \o OfRegime(cs, vs, r), <<>>, Upto(c.nr))
      g == Fixed(XB(c), VXc(c)) \o Fixed(EB(c), VEc(c))
  IN f(XB(c), VXc(c)) \o f(EB(c), VEc(c)) \o [j \in 1..Len(g) |-> RC(g[j], 0)]
AsIs(c, v) ==
  LET l == AsIsLayout(c) IN [j \in 1..(c.nr - 1) |-> <<Pos(l, RC(v, 1)), Pos(l, RC(v, j + 1))>>]
================================================================================
