---------------------------------- MODULE C01 ----------------------------------
(* Recorded OLS fits against the definition of least squares.                   *)
EXTENDS Conf, Design, Reg

Kept0(e) == Kept(e.cfg.kx, ToSet(e.cfg.const))
Nm(e) == [x |-> e.in.name_x, e |-> <<>>, q |-> <<>>, y |-> e.in.name_y]
Cs(e) == XCols(Kept0(e), e.cfg.mask, e.cfg.slx)
X(e) == Numeric(Cs(e), [x |-> e.in.x, y |-> e.in.y], e.in.W, Rows(e.in.y))

DesignStage(e) == LET o == e.obs IN <<
  Cl("x", CloseD(o.x, X(e), 11)),
  Cl("name_x", Same(o.name_x, Labels(Cs(e), Nm(e)))),
  Cl("name_y", Same(o.name_y, e.in.name_y)),
  Cl("n", CloseD(o.n, Rows(e.in.y), 12)),
  Cl("k", CloseD(o.k, Len(Cs(e)), 12)) >>

FitStage(e) == LET o == e.obs  f == LS(e.in.y, X(e))  n == f.n  k == f.k IN <<
  Cl("betas", CloseD(o.betas, f.b, 8)),
  Cl("normal-equations", Within(Tr(X(e)) ** o.u, Fill(k, 1, 0), Rat(1, 10000000) ** SumAll(MAbs(X(e)) ))),
  Cl("predy", CloseD(o.predy, f.predy, 8)),
  Cl("u", CloseD(o.u, f.u, 8)),
  Cl("y=predy+u", CloseD(o.predy ++ o.u, e.in.y, 9)),
  Cl("utu", CloseD(o.utu, f.utu, 8)),
  Cl("sig2n", CloseD(o.sig2n, f.utu // n, 8)),
  Cl("sig2n_k", CloseD(o.sig2n_k, f.utu // (n - k), 8)),
  Cl("xtx", CloseD(o.xtx, f.xtx, 9)),
  Cl("xtxi", CloseD(o.xtxi, f.xtxi, 7)),
  Cl("mean_y", CloseD(o.mean_y, Mean(e.in.y), 9)),
  Cl("std_y", CloseD(o.std_y, StdY(e.in.y), 9)) >>

InferStage(e) ==
  LET o == e.obs  f == LS(e.in.y, X(e))  n == f.n  k == f.k
      s2 == f.utu // (IF e.cfg.n_k = 1 THEN n - k ELSE n)
      vm == s2 ** f.xtxi
      tt == TTab(f.b, vm, n - k)
      ll == LogLik(n, f.utu)
      r2 == R2(e.in.y, f.u)
      F  == (SumSq(f.predy -- Mean(e.in.y)) // (k - 1)) // (f.utu // (n - k))
      t  == o.output
  IN <<
  Cl("sig2", CloseD(o.sig2, s2, 8)),
  Cl("vm", CloseVm(o.vm, vm, 7)),
  Cl("std_err", CloseD(o.std_err, SE(vm), 7)),
  Cl("t_stat", CloseD(o.t_stat, tt, 6)),
  Cl("r2", CloseD(o.r2, r2, 8)),
  Cl("ar2", CloseD(o.ar2, AR2(e.in.y, f.u, n, k), 8)),
  Cl("f_stat", CloseD(o.f_stat, VCat(<<F, FSf(F, k - 1, n - k)>>), 6)),
  Cl("logll", CloseD(o.logll, ll, 9)),
  Cl("aic", CloseD(o.aic, AIC(k, ll), 9)),
  Cl("schwarz", CloseD(o.schwarz, SC(n, k, ll), 9)),
  Cl("output.names", Same(Fld(t, "var_names"), Labels(Cs(e), Nm(e)))),
  Cl("output.coefficients", CloseD(Fld(t, "coefficients"), f.b, 8)),
  Cl("output.std_err", CloseD(Fld(t, "std_err"), SE(vm), 7)),
  Cl("output.stat", CloseD(Fld(t, "zt_stat"), ColsOf(tt, <<1>>), 6)),
  Cl("output.prob", CloseD(Fld(t, "prob"), ColsOf(tt, <<2>>), 6)) >>

Stage(s, e) == IF Raised(e) THEN << Cl("call-returns", FALSE) >>
               ELSE CASE s = 1 -> DesignStage(e) [] s = 2 -> FitStage(e) [] OTHER -> InferStage(e)
TNext == Replay(Stage, 3)
================================================================================
