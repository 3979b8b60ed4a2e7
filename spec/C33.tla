---------------------------------- MODULE C33 ----------------------------------
(* Recorded diagnostics of least squares / 2SLS / spatial lag models with regimes.  *)
EXTENDS RegFit, SpDiag, Diag, WhiteRegi
Ols(e) == C(e).est = "OLS"
\* White's auxiliary regression from its terms
TermCol(m, cols, ind) == LET v == ColsOf(cols, <<m[2]>>) (.) ColsOf(cols, <<m[3]>>) IN IF m[1] = 0 THEN v ELSE v (.) ColsOf(ind, <<m[1]>>)
WhiteReg(u, terms, cols, ind) ==
  LET s == SetToSeq(terms)  A == HCat([j \in 1..Len(s) |-> TermCol(s[j], cols, ind)])  f == LS(u (.) u, A)
  IN ChiRec(Rows(u) ** R2(u (.) u, f.u), Len(s) - 1)
PoolTerms(e) == WhiteTerms(XR(e), XC(e), C(e).nr)
SubTerms(e) == WhiteTerms([j \in 1..Len(XC(e)) |-> RC(XC(e)[j], 0)], XC(e), C(e).nr)
Ref(o, X, w) == IF Lt(30, CondIx(Tr(X) ** X)) THEN Same(o.white, "Not computed due to multicollinearity.") ELSE CloseD(o.white, w, 5)
\* the non-spatial diagnostics of a fit f on X
NonSpat(e, o, y, X, f, w) ==
  LET z == Dedup(X (.) X)  ll == LogLik(f.n, f.utu) IN
  << Cl("jarque_bera", CloseD(o.jarque_bera, JB(f.u), 6)),
     Cl("breusch_pagan", CloseD(o.breusch_pagan, BP(f.u, z), 6)),
     Cl("koenker_bassett", CloseD(o.koenker_bassett, KB(f.u, z), 6)),
     Cl("mulColli", CloseD(o.mulColli, CondIx(Tr(X) ** X), 6)),
     Cl("f_stat", CloseD(o.f_stat, FRec(SumSq(f.predy -- Mean(y)), f.k - 1, f), 6)),
     Cl("logll", CloseD(o.logll, ll, 8)), Cl("aic", CloseD(o.aic, AIC(f.k, ll), 8)), Cl("schwarz", CloseD(o.schwarz, SC(f.n, f.k, ll), 8)),
     Cl("sig2ML", CloseD(o.sig2ML, f.utu // f.n, 7)),
     Cl("white", IF C(e).white = 1 /\ C(e).robust = "none" THEN Ref(o, X, w) ELSE Same(Fld(o, "white"), "absent")) >>
NoNonSpat(o) == << Cl("no-diagnostics", \A a \in {"jarque_bera", "breusch_pagan", "koenker_bassett", "mulColli", "f_stat", "white"} : Same(Fld(o, a), "absent")) >>
\* tests for spatial dependence of the whole model: all residuals, the interacted regressors, the complete weights
SpatOls(e, f) ==
  LET o == e.obs  X == Z(e)  W == e.in.W  y == e.in.y  g == f @@ [xtxi |-> Inv(Tr(X) ** X)] IN
  IF C(e).spat = 1 /\ GroupWise(e) THEN
       << Cl("groupwise-tests-of-reported-residuals", CloseD(o.lm_error, LmErr(g, W), 6) /\ CloseD(o.lm_lag, LmLag(g, y, X, W), 6)) >> ELSE
  IF C(e).spat = 0 THEN << Cl("no-spatial-diagnostics", \A a \in {"lm_error", "lm_lag", "lm_sarma", "moran_res"} : Same(Fld(o, a), "absent")) >> ELSE
  << Cl("lm_error", CloseD(o.lm_error, LmErr(g, W), 6)), Cl("lm_lag", CloseD(o.lm_lag, LmLag(g, y, X, W), 6)),
     Cl("rlm_error", CloseD(o.rlm_error, RLmErr(g, y, X, W), 5)), Cl("rlm_lag", CloseD(o.rlm_lag, RLmLag(g, y, X, W), 5)),
     Cl("lm_sarma", CloseD(o.lm_sarma, Sarma(g, y, X, W), 6)),
     Cl("moran", IF C(e).moran = 0 THEN Same(Fld(o, "moran_res"), "absent")
                 ELSE CloseD(At(o.moran_res, 1, 1), MI(g.u, W), 7) /\ CloseD(At(o.moran_res, 2, 1), ZMI(g, X, W), 5)
                      /\ CloseD(At(o.moran_res, 3, 1), 2 ** NormSf(MAbs(ZMI(g, X, W))), 5)) >>
OlsPooled(e) == LET f == Pooled(e).f IN
  (IF C(e).nonspat = 0 \/ GroupWise(e) THEN NoNonSpat(e.obs)
   ELSE NonSpat(e, e.obs, e.in.y, Z(e), f, WhiteReg(f.u, PoolTerms(e), Numeric(XC(e), Src(e), e.in.W, N(e)), D(e))))
  \o SpatOls(e, f)
OlsMulti(e, r) ==
  LET d == SubDesign(e, r)  f == SubFit(e, r).f  o == e.obs.multi[r] IN
  IF C(e).nonspat = 0 THEN NoNonSpat(o) ELSE NonSpat(e, o, d.y, d.z, f, WhiteReg(f.u, SubTerms(e), d.z, D(e)))
Joint(e) == LET f == Basic(e, e.in.y, Z(e), Z(e)) IN NoNonSpat(e.obs) \o SpatOls(e, f)
\* Anselin-Kelejian
AkAt(o, f, z, W) == Cl("ak_test", CloseD(o.ak_test, AK(f.u, z, f.varb, W), 5))
\* common factor hypothesis of a spatial Durbin model without other endogenous variables
CfCl(e, o, cols, off) ==
  LET q == Upto(Len(cols))
      xs == SelectSeq(q, LAMBDA j: cols[j].c.src = "x" /\ cols[j].c.lag = 0)  ws == SelectSeq(q, LAMBDA j: cols[j].c.src = "x" /\ cols[j].c.lag = 1)
      paired == Len(xs) = Len(ws) /\ \A j \in 1..Len(xs) : cols[xs[j]].r = cols[ws[j]].r
      all == xs \o ws \o <<Len(cols)>> IN
  << Cl("comfac", IF ~Lag(e) \/ C(e).slx # 1 \/ C(e).ne > 0 THEN Same(Fld(o, "cfh_test"), "absent")
                  ELSE IF ~paired \/ \E j \in ToSet(xs) : cols[j].r = 0 THEN Same(Fld(o, "cfh_test"), "absent")
                  ELSE CloseD(o.cfh_test, Comfac(RowsOf(o.betas, xs), RowsOf(o.betas, ws), At(o.betas, Len(cols), 1), ColsOf(RowsOf(o.vm, all), all)), 5)) >>
IvPooled(e) == LET f == Pooled(e).f IN << AkAt(e.obs, f, Z(e), WeightsOf(e)) >> \o CfCl(e, e.obs, ZR(e), 0)
IvJoint(e) == IF Lag(e) THEN << Cl("joint-ak-absent", Same(Fld(e.obs, "ak_test"), "absent")) >>
              ELSE << AkAt(e.obs, Basic(e, e.in.y, Z(e), H(e)), Z(e), e.in.W) >>
IvMulti(e, r) == IF ~Lag(e) THEN << Cl("regime-ak-absent", Same(Fld(e.obs.multi[r], "ak_test"), "absent")) >>
  ELSE LET d == SubDesign(e, r)  f == SubFit(e, r).f  o == e.obs.multi[r]
           cols == [j \in 1..Len(XC(e) \o EC(e)) |-> RC((XC(e) \o EC(e))[j], r)] IN
       << AkAt(o, f, d.z, d.w) >> \o CfCl(e, o, cols, 0)
Stage(s, e) ==
  CASE Raised(e) -> << Cl("call-returns", s > 1) >>
    [] Multi(e) /\ Same(e.obs.keys, "absent") -> << Cl("separate-fits", s > 1) >>
    [] s = 1 -> IF Ols(e) THEN (IF Multi(e) THEN Joint(e) ELSE OlsPooled(e)) ELSE (IF Multi(e) THEN IvJoint(e) ELSE IvPooled(e))
    [] OTHER -> IF ~Multi(e) \/ s - 1 > C(e).nr THEN <<>> ELSE IF Ols(e) THEN OlsMulti(e, s - 1) ELSE IvMulti(e, s - 1)
TNext == Replay(Stage, 4)
================================================================================
