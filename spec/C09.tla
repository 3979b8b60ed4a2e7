---------------------------------- MODULE C09 ----------------------------------
(* Recorded spatial diagnostics against their published formulas.                 *)
EXTENDS Iv, SpDiag
XOnly(e) == ColsOf(Z(e), NumSeq(2, Len(Dd(e).kept) + 1))
LmStage(e) ==
  LET o == e.obs  y == e.in.y  W == e.in.W  X == Z(e)
      f == LS(y, X)
      kb == e.cfg.slx = 0
      has(n) == ~Same(Fld(o, n), "absent")
      lm == LmLag(f, y, X, W)  le == LmErr(f, W)
      d == LmDurbin(f, y, XOnly(e), X, W)  wx == LmWx(f, XOnly(e), X, W)  kx == Cols(X) - 1 IN
  << Cl("betas", CloseD(o.betas, f.b, 8)),
     Cl("lm_error", CloseD(o.lm_error, le, 6)),
     Cl("lm_lag", CloseD(o.lm_lag, lm, 6)),
     Cl("rlm_error", CloseD(o.rlm_error, RLmErr(f, y, X, W), 5)),
     Cl("rlm_lag", CloseD(o.rlm_lag, RLmLag(f, y, X, W), 5)),
     Cl("lm_sarma", CloseD(o.lm_sarma, Sarma(f, y, X, W), 5)) >>
  \o (IF ~kb THEN << Cl("no-koley-bera", ~has("lm_wx") /\ ~has("lm_spdurbin")) >> ELSE
      << Cl("lm_wx", CloseD(o.lm_wx, wx, 5)),
         Cl("lm_spdurbin", CloseD(o.lm_spdurbin, d, 5)),
         Cl("rlm_wx", CloseD(o.rlm_wx, Chi(S(d) -- S(lm), kx), 4)),
         Cl("rlm_durlag", CloseD(o.rlm_durlag, Chi(S(d) -- S(wx), 1), 4)),
         Cl("lm_slxerr", CloseD(o.lm_slxerr, Chi(S(le) ++ S(wx), kx + 1), 5)) >>)
MoranStage(e) ==
  LET o == e.obs  W == e.in.W  X == Z(e)  f == LS(e.in.y, X)  z == ZMI(f, X, W) IN
  IF e.cfg.moran = 0 THEN << Cl("no-moran", Same(Fld(o, "moran_res"), "absent")) >> ELSE
  << Cl("moran", CloseD(o.moran_res, VCat(<<MI(f.u, W), z, NormP(z)>>), 6)),
     Cl("moran-class", CloseD(o.mr, VCat(<<MI(f.u, W), EMI(f, X, W), VMI(f, X, W), z, NormP(z)>>), 6)) >>
\* the LMtests class computes exactly what is asked for
SubsetStage(e) ==
  LET o == e.obs.sub  y == e.in.y  W == e.in.W  X == Z(e)  f == LS(y, X)
      d == LmDurbin(f, y, XOnly(e), X, W)  wx == LmWx(f, XOnly(e), X, W)  lm == LmLag(f, y, X, W)  le == LmErr(f, W)  kx == Cols(X) - 1
      Val(t) == CASE t = "lme" -> le [] t = "lml" -> lm [] t = "rlme" -> RLmErr(f, y, X, W) [] t = "rlml" -> RLmLag(f, y, X, W)
                  [] t = "sarma" -> Sarma(f, y, X, W) [] t = "lmwx" -> wx [] t = "lmspdurbin" -> d
                  [] t = "rlmwx" -> Chi(S(d) -- S(lm), kx) [] t = "rlmdurlag" -> Chi(S(d) -- S(wx), 1)
                  [] OTHER -> Chi(S(le) ++ S(wx), kx + 1) IN
  IF e.cfg.slx > 0 THEN <<>> ELSE
  [j \in 1..Len(e.cfg.tests) |-> Cl("LMtests." \o e.cfg.tests[j], CloseD(Fld(o, e.cfg.tests[j]), Val(e.cfg.tests[j]), 4))]
IvStage(e) ==
  LET o == e.obs  f == Fit(e)  W == e.in.W  k == Len(Zs(e))  vm == Vm(e, f)
      kx == Len(Dd(e).kept)
      bi == NumSeq(2, kx + 1)  gi == NumSeq(kx + 2, 2 * kx + 1)
      ix == bi \o gi \o <<k>>
      cf == Comfac(RowsOf(f.b, bi), RowsOf(f.b, gi), At(f.b, k, 1), RowsOf(ColsOf(vm, ix), ix)) IN
  << Cl("betas", CloseD(o.betas, f.b, 6)),
     Cl("ak_test", CloseD(o.ak_test, AK(f.u, Z(e), f.varb, W), 5)),
     Cl("ak-class-gen", CloseD(o.ak_gen, VCat(<<MI(f.u, W), AK(f.u, Z(e), f.varb, W)>>), 5)),
     Cl("ak-class-nosp", CloseD(o.ak_nosp, VCat(<<MI(f.u, W), LmErr(f, W)>>), 5)),
     Cl("common-factor", IF e.cfg.est = "GM_Lag" /\ e.cfg.slx = 1 /\ e.cfg.ne = 0 /\ e.cfg.mask = <<>>
                         THEN CloseD(o.cfh_test, cf, 4) ELSE Same(Fld(o, "cfh_test"), "absent")) >>
Stage(s, e) == IF Raised(e) THEN << Cl("call-returns", FALSE) >>
               ELSE IF e.cfg.est = "OLS" THEN (CASE s = 1 -> LmStage(e) [] s = 2 -> MoranStage(e) [] OTHER -> SubsetStage(e))
               ELSE IF s = 1 THEN IvStage(e) ELSE <<>>
TNext == Replay(Stage, 3)
================================================================================
