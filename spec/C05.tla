----------------------------------- MODULE C05 -----------------------------------
(* Recorded coefficient tables and printed summaries.                              *)
EXTENDS Cat, Tab
Nm(e) == [x |-> e.in.name_x, y |-> e.in.name_y, e |-> e.in.name_yend, q |-> e.in.name_q]
Src(e) == [x |-> e.in.x, y |-> e.in.y, e |-> Fld(e.in, "yend"), q |-> Fld(e.in, "q")]
DD(e) == IF e.cfg.regi = 1 THEN Indic(e.in.ri, e.cfg.nr) ELSE Fill(Rows(e.in.y), 1, 1)
\* the column of a coefficient; lags of x use the complete weights, the lag of y
\* those within regimes when it is separate (with lags of x, either)
ColOf(e, rc, wy) == RegCol(rc, Src(e), IF rc.c.src = "y" THEN wy ELSE e.in.W, DD(e))
Kp98(c) == c.est \in {"GM_Error", "GM_Endog_Error", "GM_Combo"}
Row(m, j) == RowsOf(m, <<j>>)
TableCl(e) ==
  LET c == e.cfg  o == e.obs  cs == Cols0(c)  L == LabelsOf(c, Nm(e), e.in.labs)
      nolam == SelectSeq(Upto(Len(cs)), LAMBDA j: cs[j].c.src # "lambda")
      b == RowsOf(o.betas, IF Kp98(c) THEN nolam ELSE Upto(Len(cs)))
      D == DD(e)  n == Rows(e.in.y)
      size(r) == IF r = 0 \/ ~Multi(c) THEN Rat(n, 1) ELSE SumAll(ColsOf(D, <<r>>))
      kOf(r) == IF r = 0 \/ ~Multi(c) THEN Len(cs) ELSE Len(XB(c) \o EB(c))
      st == IF c.est # "OLS" THEN ZTab(b, o.vm)
            ELSE LET t == b // SE(o.vm) IN VCat([j \in 1..Rows(b) |-> HCat(<<Row(t, j), TP(Row(t, j), size(cs[j].r) -- kOf(cs[j].r))>>)] \o <<>>)
      pw == [j \in 1..Len(nolam) |-> nolam[j]]
      at(wy) == FoldLeft(LAMBDA s, j: s ++ ColOf(e, cs[j], wy) (.) At(o.betas, j, 1), Fill(n, 1, 0), pw)
      sepw == c.regi = 1 /\ LagSep(c) = 1
      pred(wy) == LET p == at(wy) IN IF c.est = "Probit" THEN MNormCdf(p) ELSE p
      near(wy) == CloseD(o.predy, pred(wy), 6) IN
  << Cl("coefficient-names", Same(o.names, L)) >> \o
  (IF ~Same(o.names, L) THEN <<>> ELSE
     (IF Kp98(c) THEN RTableNoInf(o.output, L, o.betas, SE(o.vm), st, 9) ELSE RTable(o.output, L, o.betas, SE(o.vm), st, 9))
     \o << Cl("output.in-order", c.regi = 1 \/ Same(Fld(o.output, "var_names"), L)),
           Cl("label-multiplies-its-column", IF ~sepw THEN near(e.in.W) ELSE near(BlockW(e.in.W0, D, 0)) \/ (c.slx > 0 /\ near(e.in.W))) >>)
\* the printed rows are those of the table, in its order
PrintedCl(e) ==
  LET c == e.cfg  o == e.obs  t == o.output  nm == Fld(t, "var_names") IN
  << Cl("printed.names", Same(o.p_names, nm)) >> \o
  (IF ~Same(o.p_names, nm) THEN <<>> ELSE
     << Cl("printed.numbers", Within(o.p_vals, HCat(<<t.coefficients, t.std_err, t.zt_stat, t.prob>>), Dec("0.00000505"))) >>)
Yr(e, r) == IF r = 0 THEN e.in.y ELSE RowsOf(e.in.y, Members(e.in.ri, r))
HeadCl(e) ==
  LET o == e.obs  c == e.cfg  h == o.heads
      reg(j) == IF Multi(c) THEN j ELSE 0
      k == Len(SelectSeq(Cols0(c), LAMBDA q: q.c.src # "lambda"))
      kk == IF Multi(c) THEN Len(XB(c) \o EB(c)) ELSE k
      ok(j) == LET y == Yr(e, reg(j))  m == Mean(y) IN
        /\ h[j].n = Rows(y) /\ h[j].k = kk /\ h[j].df = Rows(y) - kk
        /\ (c.est = "Probit" \/ (Within(h[j].mean, m, Dec("0.0000506")) /\ Within(h[j].sd, Sqrt(SumSq(y -- m) // (Rows(y) - 1)), Dec("0.0000506")))) IN
  << Cl("printed.equations", Len(h) = IF Multi(c) THEN c.nr ELSE 1) >> \o
  (IF Len(h) # (IF Multi(c) THEN c.nr ELSE 1) THEN <<>> ELSE << Cl("printed.head", \A j \in 1..Len(h) : ok(j)) >>)
  \o [j \in 1..Len(o.pairs) |-> Cl("printed." \o o.pairs[j].what, Within(o.pairs[j].shown, o.pairs[j].value, o.pairs[j].tol))]
\* each equation says how its standard errors were obtained
ErrorsCl(e) ==
  LET o == e.obs  r == e.cfg.robust
      line == CASE r = "white" -> <<"White Standard Errors">> [] r = "hac" -> <<"HAC Standard Errors; Kernel Weights">>
                [] r = "ogmm" -> <<"Optimal GMM used to estimate the coefficients and the variance-covariance matrix">> [] OTHER -> <<>> IN
  << Cl("printed.errors", \A j \in 1..Len(o.errors) : Same(o.errors[j], line)),
     Cl("printed.kernel", \A j \in 1..Len(o.kernels) : o.kernels[j] = (IF r = "hac" THEN o.name_gwk ELSE "none")) >>
Bag(s, t) == SeqLen(s) = Len(t) /\ ToSet(s) = ToSet(t)
\* the covariance matrix, the instruments and the variance inflation as printed
Ivs(e) == \E j \in 1..SeqLen(e.obs.q) : SeqLen(e.obs.q[j]) > 0
SectionsCl(e) ==
  LET o == e.obs  s == o.sec IN
  << Cl("printed.covariance", IF o.want.vm = 0 THEN Same(s.vm, "absent") ELSE Within(s.vm, o.vm, Dec("0.000000506") ++ (Dec("0.000000000001") ** MAbs(o.vm)))),
     Cl("printed.covariance-names", o.want.vm = 0 \/ s.vm_names = FoldLeft(LAMBDA a, b: a \o b, "", o.sq_names)),
     Cl("printed.vif", SeqLen(s.vif) = SeqLen(o.vif) /\ \A j \in 1..SeqLen(o.vif) : s.vif[j].name = o.vif[j][1] /\ Within(s.vif[j].v, o.vif[j][2], Dec("0.0000506"))) >>
  \o (IF ~Ivs(e) THEN << Cl("printed.no-instruments", SeqLen(s.inst) = 0) >>
      ELSE << Cl("printed.instruments", SeqLen(s.inst) = SeqLen(o.q) /\ SeqLen(s.end) = SeqLen(o.q) /\ \A j \in 1..SeqLen(o.q) : Bag(s.inst[j], o.q[j]) /\ Bag(s.end[j], o.end[j])) >>)
\* what a report of the class always shows
Shows(c) ==
  LET ml == c.est \in {"ML_Error", "ML_Lag"}  gw == c.est = "OLS" /\ c.regi = 1 /\ c.sep = 1 /\ ~Multi(c) /\ c.robust = "none"
      pooled == c.regi = 1 /\ ~Multi(c)
      bare == c.est \in {"GM_Combo", "GM_Combo_Het", "GM_Combo_Hom"} /\ Multi(c) /\ c.slx > 0 IN
  (IF c.est = "OLS" THEN {"R-squared", "Adjusted R-squared"} ELSE IF c.est # "Probit" THEN {"Pseudo R-squared"}
     ELSE {"Log-Likelihood", "LR test", "LR test (p-value)", "McFadden's rho", "% correctly pred.", "Balanced accuracy", "True positive rate", "True negative rate"})
  \cup (IF c.est = "OLS" /\ ~gw THEN {"Sum squared residual", "Sigma-square", "S.E. of regression", "Sigma-square ML", "S.E of regression ML", "F-statistic", "Prob(F-statistic)",
          "Log likelihood", "Akaike info criterion", "Schwarz criterion"} ELSE {})
  \cup (IF ml THEN {"Log likelihood", "Sigma-square ML", "S.E of regression", "Akaike info criterion", "Schwarz criterion"} ELSE {})
  \cup (IF c.est \in LagEst /\ ~bare THEN {"Spatial Pseudo R-squared"} ELSE {})
  \cup (IF c.est \in ErrEst /\ c.est \notin {"GM_Error", "GM_Endog_Error", "GM_Combo", "ML_Error"} THEN {"N. of iterations"} ELSE {})
NonSpat == {"Jarque-Bera", "Breusch-Pagan test", "Koenker-Bassett test"}
LMs == {"Lagrange Multiplier (lag)", "Robust LM (lag)", "Lagrange Multiplier (error)", "Robust LM (error)", "Lagrange Multiplier (SARMA)"}
WXs == {"LM test for WX", "Robust LM WX test", "Robust LM Lag - SDM", "Joint test for SDM"}
\* the tests shown with each equation, and with the whole
Tests(e) ==
  LET c == e.cfg  sd == e.obs.want.spat_diag = 1 /\ c.robust = "none" IN
  CASE c.est = "OLS" /\ (c.regi = 0 \/ Multi(c)) -> NonSpat \cup (IF c.regi = 0 /\ sd THEN LMs \cup (IF c.slx = 0 THEN WXs ELSE {}) ELSE {})
    [] c.est = "TSLS" /\ c.regi = 0 -> {"Durbin-Wu-Hausman test"} \cup (IF sd THEN {"Anselin-Kelejian Test"} ELSE {})
    [] c.est = "GM_Lag" /\ c.regi = 0 /\ sd -> {"Anselin-Kelejian Test"}
    [] c.est = "ML_Lag" /\ c.regi = 0 /\ sd /\ c.slx = 1 /\ c.mask = <<>> -> {"Common Factor Hypothesis Test"}
    [] OTHER -> {}
GlobalTests(e) ==
  LET c == e.cfg  sd == e.obs.want.spat_diag = 1 /\ c.robust = "none"  pooled == c.regi = 1 /\ ~Multi(c) IN
  (IF c.est = "OLS" /\ pooled /\ (c.sep = 0 \/ c.robust # "none") THEN NonSpat ELSE {})
  \cup (IF c.est = "OLS" /\ c.regi = 1 /\ sd THEN LMs ELSE {})
  \cup (IF c.est = "TSLS" /\ c.regi = 1 /\ sd THEN {"Anselin-Kelejian Test"} ELSE {})
Df(e, t) ==
  LET c == e.cfg  k == Len(SelectSeq(Cols0(c), LAMBDA q: q.c.src # "lambda")) IN
  CASE t \in {"Jarque-Bera", "Lagrange Multiplier (SARMA)"} -> 2 [] t \in (LMs \ {"Lagrange Multiplier (SARMA)"}) \cup {"Robust LM Lag - SDM", "Anselin-Kelejian Test"} -> 1
    [] t \in {"LM test for WX", "Robust LM WX test"} -> k - 1 [] t = "Joint test for SDM" -> k [] t = "Durbin-Wu-Hausman test" -> c.ne
    [] t = "Common Factor Hypothesis Test" -> IF c.est = "ML_Lag" /\ c.regi = 0 /\ c.mask = <<>> THEN Nx(c) - Cardinality(Const(c)) ELSE -1 [] OTHER -> -1
DfOk(e, rows) == \A j \in 1..SeqLen(rows) : Df(e, rows[j].name) \in {-1, rows[j].df}
Named(rows) == {rows[j].name : j \in 1..SeqLen(rows)}
ShownCl(e) ==
  LET o == e.obs  c == e.cfg IN
  << Cl("printed.has", \A j \in 1..SeqLen(o.shown) : Shows(c) \subseteq ToSet(o.shown[j])),
     Cl("printed.has-tests", \A j \in 1..SeqLen(o.tests) : Tests(e) \subseteq Named(o.tests[j])),
     Cl("printed.has-global-tests", GlobalTests(e) \subseteq Named(o.global)),
     Cl("printed.tests-df", DfOk(e, o.global) /\ \A j \in 1..SeqLen(o.tests) : DfOk(e, o.tests[j])) >>
Stage(s, e) ==
  IF Raised(e) THEN << Cl("no-exception", s > 1 \/ StrHas(e.exc.msg, "power expansion")) >>
  ELSE CASE s = 1 -> TableCl(e) [] s = 2 -> PrintedCl(e) [] OTHER -> HeadCl(e) \o ErrorsCl(e) \o ShownCl(e) \o (IF e.obs.want.tex = 1 THEN <<>> ELSE SectionsCl(e))
TNext == Replay(Stage, 3)
================================================================================
