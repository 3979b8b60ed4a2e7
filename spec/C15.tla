---------------------------------- MODULE C15 ----------------------------------
(* Recorded ML lag / error models with regimes.                                   *)
EXTENDS RegFit, MlC, Tab
IsLag(e) == C(e).est = "ML_Lag"
Par(e, o) == IF IsLag(e) THEN o.rho ELSE o.lam
SymmOf(e, W, sim) == IF C(e).method = "ord" /\ sim = 1 THEN Symm(W) ELSE W
PoolX(e) == RegMat(XR(e), Src(e), e.in.W, D(e))
\* the lag of the regressors: lagged, then interacted with the regimes
LagCol(rc, d, W, ind) == LET v == W ** NumCol(rc.c, d, W, Rows(ind)) IN IF rc.r = 0 THEN v ELSE v (.) ColsOf(ind, <<rc.r>>)
PoolWX(e) == HCat([j \in 1..Len(XR(e)) |-> LagCol(XR(e)[j], Src(e), e.in.W, D(e))])
PoolLabels(e) == Append(RegLabels(XR(e), Nm(e), e.in.labs), IF IsLag(e) THEN RegLabel(RC(Wy, 0), Nm(e), e.in.labs) ELSE "lambda")
SubX(e, r) == LET z == SubDesign(e, r).z IN ColsOf(z, NumSeq(1, Len(XC(e))))
SubLabels(e, r) == IF IsLag(e) THEN MultiLabels(e, r) ELSE Append(MultiLabels(e, r), e.in.labs[r] \o "_lambda")
\* the fit o of (y, X, W); joint tables are checked separately
OptCl(e, o, y, X, WX, W) == IF IsLag(e) THEN LagOpt(o, y, X, W, LagParts(y, X, W)) ELSE ErrOptL(o, y, X, WX, W)
ValCl(e, o, y, X, WX, W, W2, labels, full) ==
  IF IsLag(e) THEN LagVals(o, y, X, W, W2, LagParts(y, X, W), labels, full)
  ELSE ErrValsL(o, y, X, WX, W, W2, labels, full)
VmGiven(e, o, y, X, WX, W, sim) ==
  << Cl("vm-from-given-weights", C(e).method # "ord" \/ sim = 0 \/
       IF IsLag(e) THEN LET f == LagFit(y, X, W, o.rho, LagParts(y, X, W)) IN
                        CloseVm(o.vm1, Inv(LagInfo(X, W, o.rho, f.pe, f.s2, Traces(W, o.rho))), 4)
       ELSE LET f == ErrFitL(y, X, WX, W, o.lam) IN CloseVm(o.vm1, Inv(ErrInfo(f.n, f.s2, Traces(W, o.lam))), 5)) >>
More(e, o, b, vm, labels) == <<
  Cl("std_err", CloseD(o.std_err, SE(vm), 4)), Cl("z_stat", CloseD(o.z_stat, ZTab(b, vm), 4)),
  Cl("name_x", Same(o.name_x, labels)),
  Cl("aic", CloseD(o.aic, AIC(o.k, o.logll), 8)), Cl("schwarz", CloseD(o.schwarz, SC(o.n, o.k, o.logll), 8)) >>
KOf(e, X) == Cols(X) + (IF IsLag(e) THEN 1 ELSE 0)
\* common factor test: all the regressors and all their lags vary over the regimes
ComfacAt(o, xs, ws, p) == LET all == xs \o ws \o <<p>> IN CloseD(o.cfh_test, Comfac(RowsOf(o.betas, xs), RowsOf(o.betas, ws), o.rho, ColsOf(RowsOf(o.vm, all), all)), 5)
PoolCf(e) ==
  LET o == e.obs  r == XR(e)  q == Upto(Len(r))
      xs == SelectSeq(q, LAMBDA j: r[j].c.src = "x" /\ r[j].c.lag = 0)  ws == SelectSeq(q, LAMBDA j: r[j].c.src = "x" /\ r[j].c.lag = 1)
      every == \A j \in 1..Len(r) : r[j].c.src = "x" => r[j].r > 0 IN
  << Cl("comfac", IF C(e).est # "ML_Lag" \/ C(e).slx # 1 \/ C(e).diag = 0 \/ ~every \/ Len(xs) # Len(ws) THEN Same(Fld(o, "cfh_test"), "absent")
                  ELSE ComfacAt(o, xs, ws, Len(r) + 1)) >>
SubCf(e, o) ==
  LET xc == XC(e)  q == Upto(Len(xc))
      xs == SelectSeq(q, LAMBDA j: xc[j].src = "x" /\ xc[j].lag = 0)  ws == SelectSeq(q, LAMBDA j: xc[j].src = "x" /\ xc[j].lag = 1) IN
  << Cl("comfac", IF C(e).est # "ML_Lag" \/ C(e).slx # 1 \/ C(e).diag = 0 \/ Len(xs) # Len(ws) THEN Same(Fld(o, "cfh_test"), "absent")
                  ELSE ComfacAt(o, xs, ws, Len(xc) + 1)) >>
PoolStage(e, s) ==
  LET o == e.obs  y == e.in.y  X == PoolX(e)  WX == PoolWX(e)  W == e.in.W  lab == PoolLabels(e)  W2 == SymmOf(e, W, e.in.similar[1]) IN
  CASE s = 1 -> << Cl("x", CloseD(o.x, X, 10)), Cl("multi-absent", Same(o.keys, "absent")),
                   Cl("n", CloseD(o.n, N(e), 12)), Cl("k", CloseD(o.k, KOf(e, X), 12)) >> \o OptCl(e, o, y, X, WX, W)
                \o << Cl("filtered-interacted-design", IsLag(e) \/ CloseD(o.betas, ErrFit(y, X, W, o.lam).b, 5)) >>
    [] s = 2 -> ValCl(e, o, y, X, WX, W, W2, lab, FALSE) \o More(e, o, o.betas, o.vm, lab)
                \o RTable(o.output, lab, o.betas, SE(o.vm), ZTab(o.betas, o.vm), 8)
                \o << Cl("pr2", CloseD(o.pr2, Corr2(y, o.predy), 6)), Cl("utu", CloseD(o.utu, SumSq(o.u), 7)) >>
    [] s = 3 -> VmGiven(e, o, y, X, WX, W, e.in.similar[1]) \o PoolCf(e)
    [] OTHER -> <<>>
JointStage(e) ==
  LET o == e.obs  nr == C(e).nr  m == o.multi
      all == FoldLeft(LAMBDA acc, r: acc \o SubLabels(e, r), <<>>, Upto(nr))
      sc(f) == Scatter([r \in 1..nr |-> m[r][f]], e.in.ri, nr) IN
  << Cl("joint.keys", Same(o.keys, e.in.labs)),
     Cl("joint.betas", CloseD(o.betas, VCat([r \in 1..nr |-> m[r].betas]), 10)),
     Cl("joint.vm", CloseVm(o.vm, BDiag([r \in 1..nr |-> m[r].vm]), 10)),
     Cl("joint.u", CloseD(o.u, sc("u"), 10)),
     Cl("joint.predy", CloseD(o.predy, sc("predy"), 10)),
     Cl("joint.names", Same(o.name_x, all)) >>
  \o (IF IsLag(e) THEN << Cl("joint.predy_e", CloseD(o.predy_e, sc("predy_e"), 10)), Cl("joint.e_pred", CloseD(o.e_pred, sc("e_pred"), 10)) >>
      ELSE << Cl("joint.e_filtered", CloseD(o.e_filtered, sc("e_filtered"), 10)) >>)
  \o RTable(o.output, all, o.betas, VCat([r \in 1..nr |-> m[r].std_err]), VCat([r \in 1..nr |-> m[r].z_stat]), 8)
SubStage(e, r) ==
  LET o == e.obs.multi[r]  s == SubDesign(e, r)  X == SubX(e, r)  W2 == SymmOf(e, s.w, e.in.similar[r]) IN
  << Cl("x", CloseD(o.x, X, 10)), Cl("n", CloseD(o.n, Rows(s.y), 12)), Cl("k", CloseD(o.k, KOf(e, X), 12)) >>
  \o OptCl(e, o, s.y, X, s.w ** X, s.w) \o ValCl(e, o, s.y, X, s.w ** X, s.w, W2, SubLabels(e, r), FALSE)
  \o More(e, o, o.betas, o.vm, SubLabels(e, r)) \o SubCf(e, o) \o VmGiven(e, o, s.y, X, s.w ** X, s.w, e.in.similar[r])
MultiStage(e, s) ==
  IF Same(e.obs.keys, "absent") THEN << Cl("separate-fits", FALSE) >>
  ELSE IF s = 1 THEN JointStage(e) ELSE IF s - 1 <= C(e).nr THEN SubStage(e, s - 1) ELSE <<>>
\* see C16
MayRaiseP(e, y, X, W, r) ==
  LET p == LagParts(y, X, W)  F(v) == LagNll(p, W, v) IN
  /\ Minimiser(F, r, Tol)
  /\ IF e.exc.type = "TimeoutError" THEN Lt(Dec("0.9999"), MAbs(r))
     ELSE StrHas(e.exc.msg, "power expansion") /\ Lt(Dec("0.999"), Sq(r) ** MaxAll(RowSums(W)) ** MaxAll(ColSums(W)))
MayRaise(e) == IsLag(e) /\
  IF Multi(e) THEN \E r \in 1..C(e).nr : LET s == SubDesign(e, r) IN MayRaiseP(e, s.y, SubX(e, r), s.w, e.in.rho0[r])
  ELSE MayRaiseP(e, e.in.y, PoolX(e), e.in.W, e.in.rho0[1])
Stage(s, e) == IF Raised(e) THEN << Cl("call-returns", s > 1 \/ MayRaise(e)) >>
               ELSE IF Multi(e) THEN MultiStage(e, s) ELSE PoolStage(e, s)
TNext == Replay(Stage, 4)
================================================================================
