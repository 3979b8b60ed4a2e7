---------------------------------- MODULE C02 ----------------------------------
(* Robust covariance matrices of OLS, 2SLS and spatial 2SLS.                      *)
EXTENDS Iv
Tol(e) == IF e.cfg.est = "GM_Lag" THEN 6 ELSE 7
FitStage(e) == LET o == e.obs f == Fit(e) IN <<
  Cl("betas", CloseD(o.betas, f.b, Tol(e))),
  Cl("u", CloseD(o.u, f.u, Tol(e))),
  Cl("sig2", CloseD(o.sig2, f.utu // Div(e, f), Tol(e))),
  Cl("robust-label", Same(o.robust, IF e.cfg.robust = "none" THEN "unadjusted" ELSE e.cfg.robust)) >>
VmStage(e) == LET o == e.obs  f == Fit(e)  vm == Vm(e, f)
                  tt == IF e.cfg.est = "OLS" THEN TTab(f.b, vm, f.n - f.k) ELSE ZTab(f.b, vm) IN
  << Cl("vm", CloseVm(o.vm, vm, Tol(e) - 1)),
     Cl("std_err", CloseD(o.std_err, SE(vm), Tol(e) - 1)),
     Cl("stat", CloseD(IF e.cfg.est = "OLS" THEN o.t_stat ELSE o.z_stat, tt, Tol(e) - 2)) >>
  \o Table(o.output, Labels(Zs(e), Nm(e)), f.b, vm, tt, Tol(e))
Stage(s, e) == IF Raised(e) THEN << Cl("call-returns", FALSE) >> ELSE IF s = 1 THEN FitStage(e) ELSE VmStage(e)
TNext == Replay(Stage, 2)
================================================================================
