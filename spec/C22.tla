----------------------------------- MODULE C22 ----------------------------------
(* Recorded probit fits.                                                           *)
EXTENDS Tab, Design
PB == INSTANCE Probit
Const(e) == IF e.cfg.cst = 1 THEN {e.cfg.kx} ELSE {}
Cs(e) == XCols(Kept(e.cfg.kx, Const(e)), e.in.mask, e.cfg.slx)
XX(e) == Numeric(Cs(e), [x |-> e.in.x, y |-> e.in.y], e.in.W, Rows(e.in.y))
Nm(e) == [x |-> e.in.name_x, y |-> e.in.name_y]
DesignCl(e) == LET o == e.obs  X == XX(e) IN
  << Cl("x", CloseD(o.x, X, 11)), Cl("name_x", Same(o.name_x, Labels(Cs(e), Nm(e)))), Cl("name_y", Same(o.name_y, e.in.name_y)),
     Cl("xmean", CloseD(o.xmean, Tr(ColSums(X)) // Rows(X), 10)), Cl("q", CloseD(o.q, PB!Sgn(e.in.y), 12)), Cl("y", CloseD(o.y, e.in.y, 12)),
     Cl("n", CloseD(o.n, Rows(e.in.y), 12)), Cl("k", CloseD(o.k, Cols(X), 12)) >>
\* probabilities so close to one that double precision loses their complement
Extreme(r) == Lt(MinAll(r.pp), Dec("0.0000001"))
FitCl(e) ==
  LET o == e.obs  y == e.in.y  X == XX(e)  r == PB!Of(y, X, o.betas) IN
  (IF e.cfg.optim = "newton" THEN
     LET s == PB!Newton(y, X, IF e.cfg.start = 1 THEN e.in.start ELSE PB!Start(y, X), 0, e.cfg.maxiter) IN
     << Cl("betas-newton", CloseD(o.betas, s.b, 5)), Cl("warning", Same(o.warning, s.steps = e.cfg.maxiter)) >>
   ELSE << Cl("score-zero", Same(o.warning, TRUE) \/ Lt(PB!Decrement(y, X, o.betas), Dec(IF e.cfg.optim = "ncg" THEN "0.002" ELSE "0.00001"))),
           Cl("near-maximum", Lt(PB!Decrement(y, X, o.betas), Dec("0.01"))) >>)
  \o << Cl("logl", CloseD(o.logl, r.ll, 8)), Cl("vm", CloseVm(o.vm, r.vm, 6)), Cl("xb", CloseD(o.xb, r.xb, 7)), Cl("predy", CloseD(o.predy, r.p, 7)),
        Cl("predybin", CloseD(o.predybin, r.bin, 9)), Cl("phiy", CloseD(o.phiy, r.f, 7)), Cl("u_naive", CloseD(o.u_naive, r.un, 6)),
        Cl("u_gen", Extreme(r) \/ CloseD(o.u_gen, r.ug, 5)) >>
Cnt(a, b) == SumAll(a (.) b)
ReportCl(e) ==
  LET o == e.obs  y == e.in.y  X == XX(e)  b == o.betas  k == Rows(b)  n == Rows(y)  r == PB!Of(y, X, b)  z == ZTab(b, r.vm)
      p == r.bin  tp == Cnt(p, y)  tn == Cnt(1 -- p, 1 -- y)  fp == Cnt(p, 1 -- y)  fn == Cnt(1 -- p, y)
      ap == SumAll(y)  an == n -- ap
      tpr == 100 ** (tp // ap)  tnr == 100 ** (tn // an)  pc == 100 ** ((tp ++ tn) // n)
      t == [actpos |-> ap, actneg |-> an, predpos |-> SumAll(p), predneg |-> n -- SumAll(p), truepos |-> tp, trueneg |-> tn, falsepos |-> fp, falseneg |-> fn]
      l0 == PB!L0(y)  lr == 2 ** (r.ll -- l0)
      a == PB!Ape(X, b, r.f, r.vm, e.cfg.scalem = "xmean")
      zs == a.slopes // SE(a.vm)
      tab == << t.actpos, t.actneg, t.predpos, t.predneg, t.truepos, t.trueneg, t.falseneg, t.falsepos >>
  IN << Cl("predtable", \A f \in DOMAIN t : CloseD(Fld(o.predtable, f), t[f], 10)),
        Cl("fit", CloseD(o.fit.TPR, tpr, 8) /\ CloseD(o.fit.TNR, tnr, 8) /\ CloseD(o.fit.BA, Half ** (tpr ++ tnr), 8) /\ CloseD(o.fit.PREDPC, pc, 8)),
        Cl("predpc", CloseD(o.predpc, pc, 8)), Cl("L0", CloseD(o.L0, l0, 8)),
        Cl("LR", CloseD(o.LR[1], lr, 6) /\ CloseD(o.LR[2], Chi2Sf(lr, k - 1), 4)), Cl("LR-df", CloseD(o.df, k - 1, 9)),
        Cl("mcfadrho", CloseD(o.mcfadrho, 1 -- r.ll // l0, 6)),
        Cl("scale", CloseD(o.scale, a.scale, 7)), Cl("slopes", CloseD(o.slopes, a.slopes, 6)), Cl("slopes_vm", CloseVm(o.slopes_vm, a.vm, 5)),
        Cl("slopes_std_err", CloseD(o.slopes_std_err, SE(a.vm), 5)),
        Cl("slopes_z_stat", CloseD(o.slopes_z, HCat(<<zs, NormP(zs)>>), 4)), Cl("std_err", CloseD(o.std_err, SE(r.vm), 6)), Cl("z_stat", CloseD(o.z_stat, z, 4)),
        Cl("prediction-table", IF e.cfg.pred = 0 THEN Same(o.confusion, "absent")
                               ELSE SeqLen(o.confusion) = 8 /\ \A j \in 1..8 : CloseD(o.confusion[j], tab[j], 9)) >>
     \o Table(o.table, Labels(Cs(e), Nm(e)), b, r.vm, z, 6)
SpCl(e) ==
  LET o == e.obs  W == e.in.W  r == PB!Of(e.in.y, XX(e), o.betas)
      c2(v, x) == SeqLen(v) = 2 /\ CloseD(v[1], x, 5) /\ CloseD(v[2], Chi2Sf(x, 1), 4)
      mo(v, x) == SeqLen(v) = 2 /\ CloseD(v[1], x, 5) /\ CloseD(v[2], NormP(x), 4)
      pk == PB!Pinkse(W, r)  kp == PB!MoranKP(W, r.un, r.pp)  ps == PB!PinkseSlade(W, r)
  IN IF e.cfg.spat = 0 THEN << Cl("tests-not-asked", Same(o.Pinkse_error, "absent") /\ Same(o.KP_error, "absent") /\ Same(o.PS_error, "absent")) >>
     ELSE IF Extreme(r) THEN <<>>
     ELSE << Cl("Pinkse_error", c2(o.Pinkse_error, pk)), Cl("KP_error", mo(o.KP_error, kp)), Cl("PS_error", c2(o.PS_error, ps)),
             Cl("sp_tests", c2(o.loose[1], pk) /\ mo(o.loose[2], kp) /\ c2(o.loose[3], ps)), Cl("moran_KP", mo(o.mkp, kp)) >>
Stage(s, e) == IF Raised(e) THEN (IF s = 1 THEN << Cl("no-exception", FALSE) >> ELSE <<>>)
  ELSE CASE s = 1 -> DesignCl(e) [] s = 2 -> FitCl(e) [] s = 3 -> ReportCl(e) [] OTHER -> SpCl(e)
TNext == Replay(Stage, 4)
================================================================================
