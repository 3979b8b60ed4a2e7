---------------------------------- MODULE C07 ----------------------------------
(* Recorded tests of coefficient stability of models with regimes.                *)
EXTENDS Conf, RegLay, Reg
Nm(e) == [x |-> e.in.name_x, y |-> e.in.name_y, e |-> e.in.name_yend, q |-> e.in.name_q]
RowVec(m, pm) == Tr(FromSeq([j \in 1..m |-> IF j = pm[1] THEN 1 ELSE IF j = pm[2] THEN 0 - 1 ELSE 0]))
RMat(m, rows) == VCat([j \in 1..Len(rows) |-> RowVec(m, rows[j])])
WaldT(b, V, rows) == LET R == RMat(Rows(b), rows)  d == R ** b IN Tr(d) ** Solve(R ** V ** Tr(R), d)
\* coefficients whose variance is reported
BV(e) == LET l == Layout(e.cfg)  p == SelectSeq(Upto(Len(l)), LAMBDA j: l[j].c.src # "lambda" \/ LamVar(e.cfg)) IN RowsOf(e.obs.betas, p)
RowsFor(e, v, asis) == IF asis THEN AsIs(e.cfg, v) ELSE Contrast(e.cfg, v, 1)
AllRows(e, asis) == FoldLeft(LAMBDA acc, v: acc \o RowsFor(e, v, asis), <<>>, Tested(e.cfg))
Pair(w, df) == HCat(<<w, Chi2Sf(w, df)>>)
VarName(v, nm) == IF v.src = "lambda" THEN "lambda" ELSE Label(v, nm)
IsEndog(v) == v.src \in {"e", "y"}
OneTest(e, j, asis) == Pair(WaldT(BV(e), e.obs.vm, RowsFor(e, Tested(e.cfg)[j], asis)), e.cfg.nr - 1)
Joint(e, asis) == LET r == AllRows(e, asis) IN Pair(WaldT(BV(e), e.obs.vm, r), Len(r))
RowOf(m, j) == RowsOf(m, <<j>>)
Stage(s, e) ==
  IF Raised(e) THEN << Cl("call-returns", s > 1 \/ StrHas(e.exc.msg, "power expansion")) >>
  ELSE LET o == e.obs  t == Tested(e.cfg)  k == Len(t)  nr == e.cfg.nr  mixed == Mixed(e.cfg)
           shape == Rows(o.betas) = Len(Layout(e.cfg)) /\ Rows(o.vm) = Len(WithVar(e.cfg))  IN
  CASE s = 1 -> << Cl("coefficient-names", Same(o.names, LayLabels(e.cfg, Nm(e), e.in.labs))),
                   Cl("coefficient-count", shape),
                   Cl("chow-count", Rows(o.regi) = k) >>
    [] s = 2 -> IF ~shape \/ Rows(o.regi) # k THEN <<>> ELSE
         FoldLeft(LAMBDA acc, j: acc \o
           << Cl(IF mixed /\ IsEndog(t[j]) THEN "chow-of-endogenous-beside-common-exogenous" ELSE "chow-of-variable",
                 CloseD(RowOf(o.regi, j), OneTest(e, j, FALSE), 5)) >>
           \o (IF mixed /\ IsEndog(t[j]) THEN << Cl("chow-as-positioned", CloseD(RowOf(o.regi, j), OneTest(e, j, TRUE), 5)) >> ELSE <<>>),
           <<>>, Upto(k))
         \o << Cl(IF mixed THEN "chow-of-endogenous-beside-common-exogenous" ELSE "chow-joint", CloseD(Tr(o.joint), Joint(e, FALSE), 5)),
               Cl("chow-joint-as-positioned", ~mixed \/ CloseD(Tr(o.joint), Joint(e, TRUE), 5)) >>
    [] s = 3 -> IF Same(o.output_chow, "absent") THEN << Cl("chow-table-exists", FALSE) >> ELSE
         LET c == o.output_chow IN <<
         Cl("table.names", Same(c.var_names, Append([j \in 1..k |-> VarName(t[j], Nm(e))], "Global test"))),
         Cl("table.df", CloseD(c.df, FromSeq(Append([j \in 1..k |-> nr - 1], k * (nr - 1))), 12)),
         Cl("table.values", CloseD(HCat(<<c.value, c.prob>>), VCat(<<o.regi, Tr(o.joint)>>), 9)),
         Cl("summary-shows-tests", Same(o.shown, 1)) >>
    [] OTHER -> IF Same(e.alt, "null") THEN <<>> ELSE IF mixed THEN
         << Cl("chow-of-endogenous-beside-common-exogenous", CloseD(e.alt.joint, o.joint, 3) /\ CloseD(e.alt.regi, o.regi, 3)) >> ELSE
         << Cl("regime-order-joint", CloseD(e.alt.joint, o.joint, 3)), Cl("regime-order-tests", CloseD(e.alt.regi, o.regi, 3)) >>
TNext == Replay(Stage, 4)
================================================================================
