---------------------------------- MODULE C10 ----------------------------------
(* Recorded non-spatial diagnostics against their formulas.                       *)
EXTENDS Conf, Diag
N(e) == Rows(e.in.y)
X(e) == LET b == HCat(<<Ones(N(e)), e.in.x>>) IN IF e.cfg.slx = 1 THEN HCat(<<b, e.in.W ** e.in.x>>) ELSE b
IsConst(c) == CloseD(c, Fill(Rows(c), 1, At(c, 1, 1)), 13)
BpZ(e) == Dedup(X(e) (.) X(e))
ResidStage(e) ==
  LET o == e.obs  f == LS(e.in.y, X(e))  z == BpZ(e) IN
  << Cl("jarque_bera", CloseD(o.jarque_bera, JB(f.u), 6)),
     Cl("breusch_pagan", CloseD(o.breusch_pagan, BP(f.u, z), 6)),
     Cl("koenker_bassett", CloseD(o.koenker_bassett, KB(f.u, z), 6)),
     Cl("bp-df", e.cfg.slx = 1 \/ CloseD(At(o.breusch_pagan, 2, 1), e.cfg.bpdf, 9)) >>
DesignStage(e) ==
  LET o == e.obs  X0 == X(e)  ci == CondIx(Tr(X0) ** X0)  k == Cols(X0) IN
  << Cl("mulColli", CloseD(o.mulColli, ci, 6)),
     Cl("vif", CloseD(o.vif, VCat([j \in 1..(k - 1) |-> VIF(X0, j + 1)]), 6)),
     Cl("vif-constant", Same(o.vif0, "missing")),
     Cl("constant_check", Same(o.cc_x, e.cfg.nothing) /\ Same(o.cc_xc, TRUE)) >>
WhiteStage(e) ==
  LET o == e.obs  X0 == X(e)  f == LS(e.in.y, X0)  ci == CondIx(Tr(X0) ** X0) IN
  IF e.cfg.white = 0 THEN << Cl("no-white", Same(Fld(o, "white"), "absent")) >>
  ELSE IF Lt(ci, 30) THEN << Cl("white", CloseD(o.white, WhiteT(f.u, X0), 5)),
                             Cl("white-df", e.cfg.slx = 1 \/ CloseD(At(o.white, 2, 1), e.cfg.whdf, 9)) >>
  ELSE << Cl("white-refused", Same(o.white, "Not computed due to multicollinearity.")) >>
FitStage(e) ==
  LET o == e.obs  y == e.in.y  X0 == X(e)  f == LS(y, X0)  n == f.n  k == f.k  ll == LogLik(n, f.utu)
      r == e.cfg.r
      f0 == LS(y, ColsOf(X0, NumSeq(1, k - r)))
      ll0 == LogLik(n, f0.utu)
      lr == 2 ** (ll -- ll0) IN
  << Cl("f_stat", CloseD(o.f_stat, FRec(SumSq(f.predy -- Mean(y)), k - 1, f), 6)),
     Cl("f_stat-subset", CloseD(o.f_sub, FRec(f0.utu -- f.utu, r, f), 6)),
     Cl("r2", CloseD(o.r2, R2(y, f.u), 8)),
     Cl("ar2", CloseD(o.ar2, AR2(y, f.u, n, k), 8)),
     Cl("logll", CloseD(o.logll, ll, 9)), Cl("log_likelihood", CloseD(o.ll_fn, ll, 9)),
     Cl("aic", CloseD(o.aic, AIC(k, ll), 9)), Cl("schwarz", CloseD(o.schwarz, SC(n, k, ll), 9)),
     Cl("akaike-fn", CloseD(o.aic_fn, AIC(k, ll), 9)), Cl("schwarz-fn", CloseD(o.sc_fn, SC(n, k, ll), 9)),
     Cl("akaike-without-logll", CloseD(o.aic_base, AIC(k, ll), 9)), Cl("schwarz-without-logll", CloseD(o.sc_base, SC(n, k, ll), 9)),
     Cl("sig2ML", CloseD(o.sig2ML, f.utu // n, 8)),
     Cl("likratio", CloseD(o.lr, ChiRec(lr, r), 5)),
     Cl("likratio-abs", CloseD(At(o.lr_rev, 1, 1), lr, 5)) >>
\* Durbin-Wu-Hausman: F test of the first-stage predictions added to the regression
DwhStage(e) ==
  IF e.cfg.ne = 0 THEN <<>> ELSE
  LET o == e.obs  y == e.in.y  X0 == X(e)  H == HCat(<<X0, e.in.q>>)
      py == HCat([j \in 1..e.cfg.ne |-> LS(ColsOf(e.in.yend, <<j>>), H).predy])
      Z == HCat(<<X0, e.in.yend>>)
      f1 == LS(y, HCat(<<Z, py>>))  f0 == LS(y, Z) IN
  << Cl("dwh", CloseD(o.dwh, FRec(f0.utu -- f1.utu, e.cfg.ne, f1), 5)),
     Cl("dwh-fn", CloseD(o.dwh_fn, FRec(f0.utu -- f1.utu, e.cfg.ne, f1), 5)) >>
Stage(s, e) == IF Raised(e) THEN << Cl("call-returns", FALSE) >>
               ELSE CASE s = 1 -> ResidStage(e) [] s = 2 -> DesignStage(e) [] s = 3 -> WhiteStage(e)
                      [] s = 4 -> FitStage(e) [] OTHER -> DwhStage(e)
TNext == Replay(Stage, 5)
================================================================================
