---------------------------------- MODULE C16 ----------------------------------
(* Recorded ML spatial lag fits.                                                  *)
EXTENDS MlC, Design
Cs(e) == XCols(Kept(e.cfg.kx, ToSet(e.cfg.const)), e.cfg.mask, e.cfg.slx)
Nm(e) == [x |-> e.in.name_x, y |-> e.in.name_y]
X(e) == Numeric(Cs(e), [x |-> e.in.x, y |-> e.in.y], e.in.W, Rows(e.in.y))
Lb(e) == Labels(Append(Cs(e), Wy), Nm(e))
\* known: the eigenvalue method computes the trace of (WA^-1)'(WA^-1) from the matrix
\* similar to W, for which it differs
W2(e) == IF e.cfg.method = "ord" /\ e.cfg.similar = 1 THEN Symm(e.in.W) ELSE e.in.W
ComfacCl(e) ==
  LET o == e.obs  k == Len(Cs(e))  kx == (k - 1) \div 2
      xs == NumSeq(2, kx + 1)  ws == NumSeq(kx + 2, k)  all == xs \o ws \o <<k + 1>>
      due == e.cfg.slx = 1 /\ e.cfg.mask = <<>> /\ e.cfg.diag = 1 IN
  << Cl("comfac", IF ~due THEN Same(o.cfh_test, "absent") \/ e.cfg.slx = 1
                  ELSE CloseD(o.cfh_test, Comfac(RowsOf(o.betas, xs), RowsOf(o.betas, ws), o.rho, ColsOf(RowsOf(o.vm, all), all)), 5)) >>
\* a run may refuse, or not finish, the power series of the reduced form when the
\* maximiser (the witness rho0, which must be one) is outside its radius
MayRaise(e) == LET r == e.rho0  p == LagParts(e.in.y, X(e), e.in.W)  F(v) == LagNll(p, e.in.W, v) IN
  /\ Minimiser(F, r, Tol)
  /\ IF e.exc.type = "TimeoutError" THEN Lt(Dec("0.9999"), MAbs(r))
     ELSE /\ StrHas(e.exc.msg, "power expansion")
          /\ Lt(Dec("0.999"), Sq(r) ** MaxAll(RowSums(e.in.W)) ** MaxAll(ColSums(e.in.W)))
Stage(s, e) ==
  IF Raised(e) THEN << Cl("call-returns", s > 1 \/ MayRaise(e)) >>
  ELSE LET o == e.obs  y == e.in.y  p == LagParts(y, X(e), e.in.W) IN
  CASE s = 1 -> LagOpt(o, y, X(e), e.in.W, p)
                \o << Cl("x", CloseD(o.x, X(e), 10)), Cl("methods-agree", Lt(MaxAll(MAbs(e.rhos -- o.rho)), Tol)) >>
    [] s = 2 -> LagVals(o, y, X(e), e.in.W, W2(e), p, Lb(e), TRUE)
    [] OTHER -> << Cl("vm-from-given-weights", e.cfg.method # "ord" \/ e.cfg.similar = 0 \/
                        LET f == LagFit(y, X(e), e.in.W, o.rho, p) IN
                        CloseVm(o.vm1, Inv(LagInfo(X(e), e.in.W, o.rho, f.pe, f.s2, Traces(e.in.W, o.rho))), 4)) >>
                \o ComfacCl(e)
TNext == Replay(Stage, 3)
================================================================================
