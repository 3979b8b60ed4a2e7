--------------------------------- MODULE KpCore --------------------------------
(* A recorded history of the KP-HET / KP-HOM procedures, over a problem record     *)
(*  k = [PB, PV, het, form, clamp, A1, s1c, inv, maxit, labels, n, lam0, eps,       *)
(*       runs, stop, asis, ordered]                                                 *)
(* PB: problem of the refits and the weights, PV: of step 1c and the covariance     *)
(* (they differ in pooled models with regimes, where PB.WZ is the interaction of    *)
(* the filtered variables).  runs[m] is the fit limited to m iterations (no         *)
(* tolerance), so lambda_1 .. lambda_M are observable; stop is the fit with limit M *)
(* and tolerance eps.  lam0 witnesses the starting value: it must explain the first *)
(* refit and solve the first step's moment problem.                                 *)
(* asis: the procedure of the pooled heteroskedastic models with endogenous         *)
(* variables, which refits at the starting value in every iteration.                *)
EXTENDS GMM, Tab
LamOf(o) == At(o.betas, Rows(o.betas), 1)
KpA1(W, a1) == CASE a1 = "het" -> A1Het(W) [] a1 = "hom" -> A1Hom(W, FALSE) [] OTHER -> A1Hom(W, TRUE)
KpMom(k, u) == Quad(k.PB.W, <<k.A1, IF k.het THEN k.PB.W ELSE A2(k.PB.W)>>, u)
KpFirst(k) == LET p == k.PB
                  f == IF k.form = "x" THEN LET f == LS(p.y, p.Z) IN [b |-> f.b, u |-> f.u]
                       ELSE LET f == IV(p.y, p.Z, p.H) IN [b |-> f.b, u |-> f.u]
              IN IF ~k.clamp THEN f ELSE LET b == ClampB(f.b) IN [b |-> b, u |-> p.y -- p.Z ** b]
\* covariance of the moments at residuals u and lambda l, regressors filtered at lf
KpWeight(k, u, l, lf) ==
  LET p == k.PB  zs == FiltZ(p, lf) IN
  CASE k.het /\ p.form = "x" -> HetPsi(p.W, k.A1, E2(p.W, u, l))
    [] k.het -> HetPsiIv(p, k.A1, u, l, HetA(p, k.A1, u, l, PHat(p.H, zs), zs, TRUE))
    [] p.form = "x" -> HomPsi(p.W, k.A1, A2(p.W), Filt(p.W, l, u))
    [] OTHER -> HomPsiIv(p, k.A1, A2(p.W), Filt(p.W, l, u), zs)
\* step 1c weights the first step's moments
KpWeight1c(k, u, l) ==
  LET p == k.PV IN
  IF p.form = "x" THEN HetPsi(p.W, k.A1, E2(p.W, u, l))
  ELSE LET zs == Filt(p.W, l, p.Z)  a == HetA(p, k.A1, u, l, PHat(p.H, p.Z), zs, FALSE) IN HetPsiIv(p, k.A1, u, l, a)
KpVm(k, M, u, l) ==
  CASE k.het /\ k.form = "x" -> HetVmX(k.PV, M, u, l) [] k.het -> HetVmIv(k.PV, M, u, l)
    [] k.form = "x" -> HomVmX(k.PV, k.A1, M, u, l) [] OTHER -> HomVmIv(k.PV, k.A1, M, u, l)
KpLam(k, m) == IF m = 0 THEN k.lam0 ELSE LamOf(k.runs[m])
\* the solutions of step 1c (one per local minimum of the unweighted objective)
KpStart1c(k) ==
  LET f == KpFirst(k)  M == KpMom(k, f.u)  c == Minima(M, "none") IN
  [j \in 1..Len(c) |-> Minima(M, Inv(KpWeight1c(k, f.u, c[j])))[1]]

KpStart(k) ==
  LET f == KpFirst(k)  M == KpMom(k, f.u)  l0 == k.lam0 IN
  << Cl("first-lambda", IF k.s1c = 1 /\ ~k.asis
        THEN LET c == Minima(M, "none") IN
             \E j \in 1..Len(c) : IsMin(M, Inv(KpWeight1c(k, f.u, c[j])), l0)
        ELSE IsMin(M, "none", l0)) >>
\* iteration m of the history: refit at lambda_{m-1}, then lambda_m
KpIterate(k, m) ==
  LET o == k.runs[m]  p == k.PB  kk == Cols(p.Z)
      lf == IF k.asis THEN k.lam0 ELSE KpLam(k, m - 1)      \* lambda of the refit
      l == KpLam(k, m)
      f == Refit(p, lf, k.clamp)
      M == KpMom(k, f.u)  vm == KpVm(k, M, f.u, l)
      bb == VCat(<<f.b, l>>)
      us == Filt(p.W, l, f.u)
      zt == ZTab(bb, vm)
      d == IF m = 1 THEN 5 ELSE 6
      unobserved == k.asis /\ k.s1c = 1 /\ m = 1       \* the weighting lambda
      refitted(ll) == CloseD(Head1(o.betas, kk), Refit(p, ll, k.clamp).b, 4) IN
  << Cl("endogenous-coefficient-not-clamped",
        ~(k.clamp /\ k.form = "iv" /\ (Clamps(Fgls(p, lf).b) \/ Clamps(IV(p.y, p.Z, p.H).b)))),
     Cl("refit-at-latest-lambda",
        IF ~k.asis THEN TRUE ELSE IF unobserved THEN \E j \in 1..3 : refitted(KpStart1c(k)[j]) ELSE refitted(KpLam(k, m - 1))),
     Cl("filtered-interacted-design", "WZ" \notin DOMAIN p \/ CloseD(Head1(o.betas, kk), Refit(k.PV, lf, k.clamp).b, 4)),
     Cl("betas", CloseD(o.betas, bb, d)),
     Cl("predy", CloseD(o.predy, f.predy, d)),
     Cl("u", CloseD(o.u, f.u, d)),
     Cl("lambda-minimises-weighted-moments",
        IF unobserved THEN LET c == KpStart1c(k) IN \E j \in 1..3 : IsMin(M, Inv(KpWeight(k, f.u, c[j], lf)), l)
        ELSE IsMin(M, Inv(KpWeight(k, f.u, KpLam(k, m - 1), lf)), l)),
     Cl("e_filtered", CloseD(o.e_filtered, us, d)),
     Cl("vm", CloseVm(o.vm, vm, d - 1)),
     Cl("std_err", CloseD(o.std_err, SE(vm), d - 1)),
     Cl("z_stat", CloseD(o.z_stat, zt, d - 1)),
     Cl("sig2", k.het \/ CloseD(o.sig2, SumSq(us) // k.n, d)),
     Cl("pr2", CloseD(o.pr2, Corr2(p.y, f.predy), d)),
     Cl("iteration", CloseD(o.iteration, m, 12)),
     Cl("iter_stop", StrHas(o.iter_stop, "Maximum")) >>
  \o (IF k.table = "none" THEN <<>> ELSE IF k.table = "ordered" THEN Table(o.output, k.labels, bb, vm, zt, d)
      ELSE RTable(o.output, k.labels, bb, SE(vm), zt, d))
\* the tolerance stops the loop at the first iteration whose change is within eps
KpDelta(k, m) == MAbs(KpLam(k, m) -- KpLam(k, m - 1))
KpStopAt(k) == LET h == {m \in 1..k.maxit : Le(KpDelta(k, m), k.eps)} IN
               IF h = {} THEN k.maxit ELSE CHOOSE m \in h : \A j \in h : m <= j
\* lambda_0 is only known to a few digits: a change next to eps decides nothing
KpUnsure(k) == \/ Lt(MAbs(KpDelta(k, 1) -- k.eps), Rat(1, 1000000))
               \/ k.asis /\ k.s1c = 1
KpStop(k) ==
  LET o == k.stop  s == KpStopAt(k)  r == k.runs[s] IN
  IF KpUnsure(k) THEN <<>> ELSE
  << Cl("stops-at-tolerance", CloseD(o.iteration, s, 12)),
     Cl("stop-reason", IF s = k.maxit THEN StrHas(o.iter_stop, "Maximum") ELSE StrHas(o.iter_stop, "onvergence")),
     Cl("stopped-betas", CloseD(o.betas, r.betas, 10)),
     Cl("stopped-vm", CloseVm(o.vm, r.vm, 10)),
     Cl("stopped-residuals", CloseD(o.u, r.u, 10)) >>
\* Kelejian-Prucha (98/99): one refit at the moment solution
Kp98Fit(k, o) ==
  LET p == k.PB  l == LamOf(o)  f == Fgls(p, l)  kk == Cols(p.Z)
      s2 == SumSq(f.us) // k.n  vm == s2 ** f.varb  zt == ZTab(f.b, vm) IN
  << Cl("lambda-minimises-moments", IsMin(Kp98(p.W, (IF k.form = "x" THEN LS(p.y, p.Z).u ELSE IV(p.y, p.Z, p.H).u)), "none", l)),
     Cl("filtered-interacted-design", "WZ" \notin DOMAIN p \/ CloseD(Head1(o.betas, kk), Fgls(k.PV, l).b, 4)),
     Cl("betas", CloseD(Head1(o.betas, kk), f.b, 6)),
     Cl("betas-length", Rows(o.betas) = kk + 1),
     Cl("predy", CloseD(o.predy, f.predy, 6)),
     Cl("u", CloseD(o.u, f.u, 6)),
     Cl("e_filtered", CloseD(o.e_filtered, Filt(p.W, l, f.u), 6)),
     Cl("sig2", CloseD(o.sig2, s2, 6)),
     Cl("vm", CloseVm(o.vm, vm, 5)),
     Cl("std_err", CloseD(o.std_err, SE(vm), 5)),
     Cl("z_stat", CloseD(o.z_stat, zt, 5)),
     Cl("pr2", CloseD(o.pr2, Corr2(p.y, f.predy), 6)) >>
  \o (CASE k.table = "none" -> <<>>
        [] k.table = "ordered" -> TableNoInf(o.output, k.labels, o.betas, vm, zt, 6)
        [] OTHER -> RTableNoInf(o.output, k.labels, o.betas, SE(vm), zt, 6))
================================================================================
