---------------------------------- MODULE C03 ----------------------------------
(* Recorded TSLS fits against the instrumental-variables estimator.               *)
EXTENDS Iv
DesignStage(e) == LET o == e.obs IN <<
  Cl("x", CloseD(o.x, Numeric(XCols(Dd(e).kept, e.cfg.mask, e.cfg.slx), Src(e), e.in.W, N(e)), 11)),
  Cl("z", CloseD(o.z, Z(e), 11)),
  Cl("h", CloseD(o.h, H(e), 11)),
  Cl("yend", CloseD(o.yend, e.in.yend, 11)),
  Cl("q", CloseD(o.q, e.in.q, 11)),
  Cl("name_z", Same(o.name_z, Labels(Zs(e), Nm(e)))),
  Cl("name_h", Same(o.name_h, Labels(Hs(e), Nm(e)))),
  Cl("name_y", Same(o.name_y, e.in.name_y)),
  Cl("n", CloseD(o.n, N(e), 12)),
  Cl("k", CloseD(o.k, Len(Zs(e)), 12)),
  Cl("kstar", CloseD(o.kstar, e.cfg.ne, 12)) >>
FitStage(e) == LET o == e.obs  f == IV(e.in.y, Z(e), H(e)) IN <<
  Cl("betas", CloseD(o.betas, f.b, 7)),
  Cl("predy", CloseD(o.predy, f.predy, 7)),
  Cl("u", CloseD(o.u, f.u, 7)),
  Cl("y=predy+u", CloseD(o.predy ++ o.u, e.in.y, 9)),
  Cl("utu", CloseD(o.utu, f.utu, 7)),
  Cl("hth", CloseD(o.hth, Tr(H(e)) ** H(e), 9)),
  Cl("hthi", CloseD(o.hthi, f.hthi, 6)),
  Cl("htz", CloseD(o.htz, Tr(H(e)) ** Z(e), 9)),
  Cl("zthhthi", CloseD(o.zthhthi, f.p, 6)),
  Cl("varb", CloseVm(o.varb, f.varb, 6)),
  Cl("pfora1a2", CloseD(o.pfora1a2, f.n ** (Tr(f.p) ** f.varb), 5)),
  Cl("sig2n", CloseD(o.sig2n, f.utu // f.n, 7)),
  Cl("sig2n_k", CloseD(o.sig2n_k, f.utu // (f.n - f.k), 7)) >>
InferStage(e) == LET o == e.obs  f == Fit(e)  vm == ClassicVm(e, f)  zt == ZTab(f.b, vm) IN
  << Cl("sig2", CloseD(o.sig2, f.utu // Div(e, f), 7)),
     Cl("vm", CloseVm(o.vm, vm, 6)),
     Cl("std_err", CloseD(o.std_err, SE(vm), 6)),
     Cl("z_stat", CloseD(o.z_stat, zt, 5)),
     Cl("pr2", CloseD(o.pr2, Corr2(e.in.y, f.predy), 6)),
     Cl("mean_y", CloseD(o.mean_y, Mean(e.in.y), 9)),
     Cl("std_y", CloseD(o.std_y, StdY(e.in.y), 9)) >>
  \o Table(o.output, Labels(Zs(e), Nm(e)), f.b, vm, zt, 7)
Stage(s, e) == IF Raised(e) THEN << Cl("call-returns", FALSE) >>
               ELSE CASE s = 1 -> DesignStage(e) [] s = 2 -> FitStage(e) [] OTHER -> InferStage(e)
TNext == Replay(Stage, 3)
================================================================================
