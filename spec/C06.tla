---------------------------------- MODULE C06 ----------------------------------
(* Recorded least squares / 2SLS / spatial lag models with regimes.               *)
EXTENDS RegFit, Tab
Labs(e) == e.in.labs
Stats(e, b, vm, n, k) == IF C(e).est = "OLS" THEN TTab(b, vm, n - k) ELSE ZTab(b, vm)
StatName(e) == IF C(e).est = "OLS" THEN "t_stat" ELSE "z_stat"
Ogmm(e) == C(e).robust = "ogmm"

PooledDesign(e) == LET o == e.obs  xl == RegLabels(XR(e), Nm(e), Labs(e)) IN
  (IF C(e).est = "OLS" THEN << Cl("x", CloseD(o.x, Z(e), 10)), Cl("name_x", Same(o.name_x, xl)) >>
   ELSE << Cl("z", CloseD(o.z, Z(e), 10)), Cl("h", CloseD(o.h, H(e), 10)),
           Cl("name_z", Same(o.name_z, RegLabels(ZR(e), Nm(e), Labs(e)))),
           Cl("name_x", Same(o.name_x, xl)),
           Cl("name_h", SeqLen(o.name_h) = Len(HR(e)) /\ Same(SubSeq(o.name_h, 1, Len(XR(e))), xl)) >>)
  \o << Cl("n", CloseD(o.n, N(e), 12)), Cl("k", CloseD(o.k, Len(ZR(e)), 12)) >>
PooledFit(e) ==
  LET o == e.obs  p == Pooled(e)  f == p.f  vm == p.vm  st == Stats(e, f.b, vm, f.n, f.k) IN
  << Cl("betas", CloseD(o.betas, f.b, 6)),
     Cl("predy", CloseD(o.predy, f.predy, 6)),
     Cl("u", CloseD(o.u, f.u, 6)),
     Cl("vm", CloseVm(o.vm, vm, 5)),
     Cl("std_err", CloseD(o.std_err, SE(vm), 5)),
     Cl("stat", CloseD(Fld(o, StatName(e)), st, 5)),
     Cl("sig2", GroupWise(e) \/ Ogmm(e) \/ CloseD(o.sig2, f.utu // Div(e, f), 6)) >>
  \o (IF GroupWise(e)
      THEN << Cl("groupwise-utu-of-reported-residuals", CloseD(o.utu, f.utu, 6) /\ CloseD(o.sig2n, f.utu // f.n, 6)
                                                       /\ CloseD(o.r2, R2(e.in.y, f.u), 6)) >>
      ELSE << Cl("utu", CloseD(o.utu, f.utu, 6)),
              Cl("sig2n", CloseD(o.sig2n, f.utu // f.n, 6)) >>
        \o (IF C(e).est = "OLS"
            THEN << Cl("r2", CloseD(o.r2, R2(e.in.y, f.u), 6)), Cl("ar2", CloseD(o.ar2, AR2(e.in.y, f.u, f.n, f.k), 6)),
                    Cl("logll", CloseD(o.logll, LogLik(f.n, f.utu), 7)),
                    Cl("aic", CloseD(o.aic, AIC(f.k, LogLik(f.n, f.utu)), 7)),
                    Cl("schwarz", CloseD(o.schwarz, SC(f.n, f.k, LogLik(f.n, f.utu)), 7)) >>
            ELSE <<>>))
  \o RTable(o.output, RegLabels(ZR(e), Nm(e), Labs(e)), f.b, SE(vm), st, 6)

\* separate fits, and the stacked results of the joint object
MultiStage(e) ==
  LET o == e.obs  nr == C(e).nr  p == [r \in 1..nr |-> SubFit(e, r)]
      st(r) == Stats(e, p[r].f.b, p[r].vm, p[r].f.n, p[r].f.k)
      b == VCat([r \in 1..nr |-> p[r].f.b])
      labels == FoldLeft(LAMBDA acc, r: acc \o MultiLabels(e, r), <<>>, Upto(nr)) IN
  << Cl("multi.keys", Same(o.keys, Labs(e))),
     Cl("betas", CloseD(o.betas, b, 6)),
     Cl("u", CloseD(o.u, Scatter([r \in 1..nr |-> p[r].f.u], e.in.ri, nr), 6)),
     Cl("predy", CloseD(o.predy, Scatter([r \in 1..nr |-> p[r].f.predy], e.in.ri, nr), 6)),
     Cl("vm", CloseVm(o.vm, BDiag([r \in 1..nr |-> p[r].vm]), 5)) >>
  \o RTable(o.output, labels, b, VCat([r \in 1..nr |-> SE(p[r].vm)]), VCat([r \in 1..nr |-> st(r)]), 6)
  \o FoldLeft(LAMBDA acc, r: acc \o (LET m == o.multi[r]  f == p[r].f IN <<
       Cl("multi.betas", CloseD(m.betas, f.b, 6)),
       Cl("multi.vm", CloseVm(m.vm, p[r].vm, 5)),
       Cl("multi.std_err", CloseD(m.std_err, SE(p[r].vm), 5)),
       Cl("multi.stat", CloseD(Fld(m, StatName(e)), st(r), 5)),
       Cl("multi.u", CloseD(m.u, f.u, 6)),
       Cl("multi.predy", CloseD(m.predy, f.predy, 6)),
       Cl("multi.n", CloseD(m.n, f.n, 12)),
       Cl("multi.k", CloseD(m.k, f.k, 12)),
       Cl("multi.utu", CloseD(m.utu, f.utu, 6)),
       Cl("multi.sig2", Ogmm(e) \/ CloseD(m.sig2, f.utu // Div(e, f), 6)),
       Cl("multi.r2", C(e).est # "OLS" \/ CloseD(m.r2, R2(RowsOf(e.in.y, Members(e.in.ri, r)), f.u), 6)),
       Cl("multi.names", Same(Fld(m, IF C(e).est = "OLS" THEN "name_x" ELSE "name_z"), MultiLabels(e, r))) >>), <<>>, Upto(nr))
\* a power series whose convergence |rho| sqrt(|W|_1 |W|_inf) < 1 does not guarantee
Norms(w) == MaxAll(RowSums(w)) ** MaxAll(ColSums(w))
MayRaise(e) == Lag(e) /\ (IF Multi(e)
  THEN \E r \in 1..C(e).nr : LET f == SubFit(e, r).f IN Lt(1, Sq(At(f.b, f.k, 1)) ** Norms(SubW(e.in.W0, Members(e.in.ri, r), C(e).std)))
  ELSE LET b == Pooled(e).f.b IN \E j \in 1..Len(ZR(e)) : ZR(e)[j].c = Wy /\ Lt(1, Sq(At(b, j, 1)) ** Norms(WeightsOf(e))))
\* reduced form: (I - diag(rho of the observation's regime) W) predy_e = X b; undefined
\* (and reported as zero) for observations whose rho is outside (-1, 1)
ReducedStage(e) ==
  LET o == e.obs  n == N(e)  W == WeightsOf(e)
      rho == [i \in 1..n |-> At(o.betas, CHOOSE j \in 1..Len(ZR(e)) : ZR(e)[j] = RC(Wy, IF C(e).lagsep = 1 THEN e.in.ri[i] ELSE 0), 1)]
      inside == FromSeq([i \in 1..n |-> IF Lt(MAbs(rho[i]), 1) THEN 1 ELSE 0])
      R == FromSeq(rho)
      xb == o.predy -- (R (.) (W ** e.in.y))
      pe == Solve(Ident(n) -- ((R (.) inside) (.) W), xb (.) inside) IN
  << Cl("predy_e", CloseD(o.predy_e, pe, 5)),
     Cl("e_pred", CloseD(o.e_pred, (e.in.y -- pe) (.) inside, 5)) >>
Stage(s, e) == CASE Raised(e) -> << Cl("call-returns", s > 1 \/ MayRaise(e)) >>
                 [] Multi(e) -> IF s = 1 THEN << Cl("kind", Same(Fld(e.obs, "multi") , "absent") = FALSE) >> ELSE MultiStage(e)
                 [] OTHER -> IF s = 1 THEN PooledDesign(e) ELSE PooledFit(e) \o (IF Lag(e) THEN ReducedStage(e) ELSE <<>>)
TNext == Replay(Stage, 2)
================================================================================
