----------------------------------- MODULE MlC ----------------------------------
(* Clauses of recorded ML fits, given the design X and its labels.                *)
EXTENDS ML, SpDiag
TableCl(t, labels, b, vm, d) == LET z == ZTab(b, vm) IN <<
  Cl("output.names", Same(Fld(t, "var_names"), labels)),
  Cl("output.coefficients", CloseD(Fld(t, "coefficients"), b, d)),
  Cl("output.std_err", CloseD(Fld(t, "std_err"), SE(vm), d - 1)),
  Cl("output.stat", CloseD(Fld(t, "zt_stat"), ColsOf(z, <<1>>), d - 1)),
  Cl("output.prob", CloseD(Fld(t, "prob"), ColsOf(z, <<2>>), d - 2)) >>
Corr(a, b) == LET da == a -- Mean(a)  db == b -- Mean(b) IN Sq(SumAll(da (.) db)) // (SumSq(da) ** SumSq(db))
LagOpt(o, y, X, W, p) ==
  LET r == o.rho  F(v) == LagNll(p, W, v) IN
  << Cl("rho-maximises-likelihood", Minimiser(F, r, Tol)), Cl("rho-in-bounds", Lt(MAbs(r), 1)) >>
\* the variance uses the trace of (WA^-1)'(WA^-1); `W2` is the W it is computed from
LagVals(o, y, X, W, W2, p, labels, hasE) ==
  LET r == o.rho  f == LagFit(y, X, W, r, p)
      info == LagInfo(X, W, r, f.pe, f.s2, Traces(W2, r))
      vm1 == Inv(info)  vm == ColsOf(RowsOf(vm1, NumSeq(1, f.k)), NumSeq(1, f.k)) IN
  << Cl("betas", CloseD(o.betas, f.b, 7)), Cl("u", CloseD(o.u, f.u, 7)), Cl("predy", CloseD(o.predy, f.predy, 7)),
     Cl("sig2", CloseD(o.sig2, f.s2, 7)), Cl("logll", CloseD(o.logll, f.ll, 8)),
     Cl("predy_e", CloseD(o.predy_e, f.pe, 5)), Cl("e_pred", CloseD(o.e_pred, f.ee, 5)),
     Cl("vm1", CloseVm(o.vm1, vm1, 4)), Cl("vm", CloseVm(o.vm, vm, 4)) >>
  \o (IF ~hasE THEN <<>> ELSE <<
     Cl("n", CloseD(o.n, f.n, 12)), Cl("k", CloseD(o.k, f.k, 12)),
     Cl("aic", CloseD(o.aic, AIC(f.k, f.ll), 8)), Cl("schwarz", CloseD(o.schwarz, SC(f.n, f.k, f.ll), 8)),
     Cl("std_err", CloseD(o.std_err, SE(vm), 4)), Cl("z_stat", CloseD(o.z_stat, ZTab(f.b, vm), 4)),
     Cl("pr2", CloseD(o.pr2, Corr(y, f.predy), 6)), Cl("pr2_e", CloseD(o.pr2_e, Corr(y, f.pe), 5)),
     Cl("mean_y", CloseD(o.mean_y, Mean(y), 9)), Cl("std_y", CloseD(o.std_y, StdY(y), 9)),
     Cl("utu", CloseD(o.utu, SumSq(f.u), 7)),
     Cl("name_x", Same(o.name_x, labels)) >> \o TableCl(o.output, labels, f.b, vm, 6))
ErrOptL(o, y, X, WX, W) == LET F(v) == ErrNllL(y, X, WX, W, v) IN
  << Cl("lambda-maximises-likelihood", Minimiser(F, o.lam, Tol)), Cl("lambda-in-bounds", Lt(MAbs(o.lam), 1)) >>
ErrOpt(o, y, X, W) == ErrOptL(o, y, X, W ** X, W)
ErrValsL(o, y, X, WX, W, W2, labels, hasE) ==
  LET l == o.lam  f == ErrFitL(y, X, WX, W, l)  vm1 == Inv(ErrInfo(f.n, f.s2, Traces(W2, l)))  vm == ErrVm(f.varb, vm1) IN
  << Cl("betas", CloseD(o.betas, f.b, 7)), Cl("u", CloseD(o.u, f.u, 7)), Cl("predy", CloseD(o.predy, f.predy, 7)),
     Cl("e_filtered", CloseD(o.e_filtered, f.ef, 7)),
     Cl("sig2", CloseD(o.sig2, f.s2, 7)), Cl("logll", CloseD(o.logll, f.ll, 8)),
     Cl("vm1", CloseVm(o.vm1, vm1, 5)), Cl("vm", CloseVm(o.vm, vm, 5)) >>
  \o (IF ~hasE THEN <<>> ELSE <<
     Cl("n", CloseD(o.n, f.n, 12)), Cl("k", CloseD(o.k, f.k, 12)),
     Cl("aic", CloseD(o.aic, AIC(f.k, f.ll), 8)), Cl("schwarz", CloseD(o.schwarz, SC(f.n, f.k, f.ll), 8)),
     Cl("std_err", CloseD(o.std_err, SE(vm), 5)), Cl("z_stat", CloseD(o.z_stat, ZTab(f.b, vm), 5)),
     Cl("pr2", CloseD(o.pr2, Corr(y, f.predy), 6)),
     Cl("mean_y", CloseD(o.mean_y, Mean(y), 9)), Cl("std_y", CloseD(o.std_y, StdY(y), 9)),
     Cl("utu", CloseD(o.utu, SumSq(f.u), 7)),
     Cl("name_x", Same(o.name_x, labels)) >> \o TableCl(o.output, labels, f.b, vm, 6))
ErrVals(o, y, X, W, W2, labels, hasE) == ErrValsL(o, y, X, W ** X, W, W2, labels, hasE)
================================================================================
