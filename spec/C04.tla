---------------------------------- MODULE C04 ----------------------------------
(* Recorded spatial 2SLS fits: instruments, estimates and reduced form.           *)
EXTENDS Iv
DesignStage(e) == LET o == e.obs IN <<
  Cl("z", CloseD(o.z, Z(e), 10)),
  Cl("h", CloseD(o.h, H(e), 10)),
  Cl("q", CloseD(o.q, ColsOf(H(e), NumSeq(Len(XCols(Dd(e).kept, e.cfg.mask, e.cfg.slx)) + 1, Len(Hs(e)))), 10)),
  Cl("yend", CloseD(o.yend, ColsOf(Z(e), NumSeq(Len(Zs(e)) - e.cfg.ne, Len(Zs(e)))), 10)),
  Cl("name_z", Same(o.name_z, Labels(Zs(e), Nm(e)))),
  Cl("name_h-names-columns", Same(e.obs.h_meaning, HMeaning(e))),
  Cl("n", CloseD(o.n, N(e), 12)),
  Cl("k", CloseD(o.k, Len(Zs(e)), 12)) >>
FitStage(e) == LET o == e.obs  f == Fit(e)  vm == Vm(e, f)  zt == ZTab(f.b, vm) IN
  << Cl("betas", CloseD(o.betas, f.b, 6)),
     Cl("rho", CloseD(o.rho, At(f.b, f.k, 1), 6)),
     Cl("predy", CloseD(o.predy, f.predy, 6)),
     Cl("u", CloseD(o.u, f.u, 6)),
     Cl("sig2", CloseD(o.sig2, f.utu // Div(e, f), 6)),
     Cl("vm", CloseVm(o.vm, vm, 5)),
     Cl("std_err", CloseD(o.std_err, SE(vm), 5)),
     Cl("z_stat", CloseD(o.z_stat, zt, 5)) >>
  \o Table(o.output, Labels(Zs(e), Nm(e)), f.b, vm, zt, 6)
\* reduced form: (I - rho W) predy_e = X b, e_pred = y - predy_e; undefined outside (-1, 1)
ReducedStage(e) ==
  LET o == e.obs  n == N(e)  r == o.rho  k == Len(Zs(e))
      xb == ColsOf(Z(e), NumSeq(1, k - 1)) ** RowsOf(o.betas, NumSeq(1, k - 1))
      inside == Lt(MAbs(r), 1)
      pe == Solve(Ident(n) -- r ** e.in.W, xb) IN
  << Cl("predy_e", IF inside THEN CloseD(o.predy_e, pe, 5) ELSE CloseD(o.predy_e, Fill(n, 1, 0), 9)),
     Cl("e_pred", IF inside THEN CloseD(o.e_pred, e.in.y -- pe, 5) ELSE CloseD(o.e_pred, Fill(n, 1, 0), 9)),
     Cl("pr2", CloseD(o.pr2, Corr2(e.in.y, o.predy), 6)),
     Cl("pr2_e", ~inside \/ CloseD(o.pr2_e, Corr2(e.in.y, pe), 5)) >>
\* a call may refuse: rho outside (-1, 1) under hard_bound, or a power series whose
\* convergence is not guaranteed by |rho| sqrt(|W|_1 |W|_inf) < 1
MayRaise(e) == LET r == MAbs(At(Fit(e).b, Len(Zs(e)), 1)) IN
  \/ e.cfg.hard = 1 /\ Lt(Rat(9999, 10000), r)
  \/ Lt(1, Sq(r) ** MaxAll(RowSums(e.in.W)) ** MaxAll(ColSums(e.in.W)))
Stage(s, e) == IF Raised(e)
               THEN << Cl("call-returns", s > 1 \/ MayRaise(e)) >>
               ELSE CASE s = 1 -> DesignStage(e) [] s = 2 -> FitStage(e)
                      [] OTHER -> ReducedStage(e) \o << Cl("hard-bound", e.cfg.hard = 0 \/ Lt(MAbs(e.obs.rho), 1)) >>
TNext == Replay(Stage, 3)
================================================================================
