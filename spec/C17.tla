---------------------------------- MODULE C17 ----------------------------------
(* Recorded ML spatial error fits.                                                *)
EXTENDS MlC, Design
Cs(e) == XCols(Kept(e.cfg.kx, ToSet(e.cfg.const)), e.cfg.mask, e.cfg.slx)
X(e) == Numeric(Cs(e), [x |-> e.in.x, y |-> e.in.y], e.in.W, Rows(e.in.y))
Lb(e) == Append(Labels(Cs(e), [x |-> e.in.name_x, y |-> e.in.name_y]), "lambda")
W2(e) == IF e.cfg.method = "ord" /\ e.cfg.similar = 1 THEN Symm(e.in.W) ELSE e.in.W
Stage(s, e) ==
  IF Raised(e) THEN << Cl("call-returns", s > 1) >>
  ELSE LET o == e.obs  y == e.in.y IN
  CASE s = 1 -> ErrOpt(o, y, X(e), e.in.W)
                \o << Cl("x", CloseD(o.x, X(e), 10)), Cl("methods-agree", Lt(MaxAll(MAbs(e.rhos -- o.lam)), Tol)) >>
    [] s = 2 -> ErrVals(o, y, X(e), e.in.W, W2(e), Lb(e), TRUE)
    [] OTHER -> << Cl("vm-from-given-weights", e.cfg.method # "ord" \/ e.cfg.similar = 0 \/
                        LET f == ErrFit(y, X(e), e.in.W, o.lam) IN
                        CloseVm(o.vm1, Inv(ErrInfo(f.n, f.s2, Traces(e.in.W, o.lam))), 5)) >>
TNext == Replay(Stage, 3)
================================================================================
