---------------------------------- MODULE C14 ----------------------------------
(* Recorded GM error models with regimes: histories of the procedures (KpCore),   *)
(* pooled on the interacted design or one per regime.                              *)
EXTENDS RegFit, KpCore
Form(e) == C(e).form
Met(e) == C(e).method
M(e) == C(e).maxit
\* filtered, then interacted with the regimes
LagCol(rc, d, W, ind) == LET v == W ** NumCol(rc.c, d, W, Rows(ind)) IN IF rc.r = 0 THEN v ELSE v (.) ColsOf(ind, <<rc.r>>)
WZ(e) == HCat([j \in 1..Len(ZR(e)) |-> LagCol(ZR(e)[j], Src(e), e.in.W, D(e))])
PoolV(e) == LET z == Z(e) IN [y |-> e.in.y, Z |-> z, H |-> IF Form(e) = "x" THEN z ELSE H(e), W |-> e.in.W, form |-> Form(e)]
PoolB(e) == PoolV(e) @@ [WZ |-> WZ(e)]
SubP(e, r) == LET s == SubDesign(e, r) IN [y |-> s.y, Z |-> s.z, H |-> IF Form(e) = "x" THEN s.z ELSE s.h, W |-> s.w, form |-> Form(e)]
Base(e, pb, pv, labels, table) ==
  [PB |-> pb, PV |-> pv, form |-> Form(e), n |-> Rows(pb.y), labels |-> labels, table |-> table,
   het |-> Met(e) = "het", s1c |-> C(e).step1c, inv |-> C(e).inv, maxit |-> M(e), eps |-> Fld(e.in, "eps"),
   A1 |-> IF Met(e) = "kp98" THEN 0 ELSE KpA1(pb.W, C(e).a1)]
KPool(e) == Base(e, PoolB(e), PoolV(e), Append(RegLabels(ZR(e), Nm(e), e.in.labs), "lambda"), "any")
            @@ [clamp |-> FALSE, asis |-> Met(e) = "het" /\ Form(e) # "x"]
KSub(e, r) == LET p == SubP(e, r) IN Base(e, p, p, Append(MultiLabels(e, r), e.in.labs[r] \o "_lambda"), "none")
              @@ [clamp |-> Met(e) = "het" /\ Form(e) # "x", asis |-> FALSE]
Hist(e, k, run(_)) == k @@ [runs |-> [m \in 1..M(e) |-> run(e.obs.runs[m])]]

NamesOf(e, o) == IF Form(e) = "x" THEN o.name_x ELSE o.name_z
PoolDesign(e) == LET o == e.obs.runs[1] IN <<
  Cl("names", Same(NamesOf(e, o), Append(RegLabels(ZR(e), Nm(e), e.in.labs), "lambda"))),
  Cl("x", CloseD(o.x, RegMat(XR(e), Src(e), e.in.W, D(e)), 10)),
  Cl("z", Form(e) = "x" \/ CloseD(o.z, Z(e), 10)),
  Cl("h", Form(e) = "x" \/ Met(e) = "kp98" \/ CloseD(o.h, H(e), 10)),
  Cl("n", CloseD(o.n, N(e), 12)),
  Cl("k", CloseD(o.k, Len(ZR(e)), 12)),
  Cl("multi-absent", Same(o.keys, "absent")) >>
Reduced(o, y, Zm, W) ==
  LET n == Rows(y)  k == Cols(Zm)  r == At(o.betas, k, 1)
      xb == ColsOf(Zm, NumSeq(1, k - 1)) ** RowsOf(o.betas, NumSeq(1, k - 1))
      inside == Lt(MAbs(r), 1)
      pe == Solve(Ident(n) -- r ** W, xb) IN
  << Cl("predy_e", IF inside THEN CloseD(o.predy_e, pe, 5) ELSE CloseD(o.predy_e, Fill(n, 1, 0), 9)),
     Cl("e_pred", IF inside THEN CloseD(o.e_pred, y -- pe, 5) ELSE CloseD(o.e_pred, Fill(n, 1, 0), 9)),
     Cl("pr2_e", ~inside \/ CloseD(o.pr2_e, Corr2(y, pe), 5)) >>
PoolStage(e, s) ==
  LET o == e.obs.runs[1]
      k == Hist(e, KPool(e) @@ [lam0 |-> Fld(e.in, "lam0"), stop |-> Fld(e.obs, "stop")], LAMBDA x: x) IN
  CASE s = 1 -> PoolDesign(e) \o (IF Form(e) = "lag" THEN Reduced(o, e.in.y, Z(e), e.in.W) ELSE <<>>)
    [] Met(e) = "kp98" -> IF s = 2 THEN Kp98Fit(k, o) ELSE <<>>
    [] s = 2 -> KpStart(k) \o KpStop(k)
    [] OTHER -> IF s - 2 <= M(e) THEN KpIterate(k, s - 2) ELSE <<>>

\* one procedure per regime; the joint object stacks them
JointRun(e, o) ==
  LET nr == C(e).nr  m == o.multi
      vb == BDiag([r \in 1..nr |-> m[r].vm])
      labels(r) == Append(MultiLabels(e, r), e.in.labs[r] \o "_lambda")
      all == FoldLeft(LAMBDA acc, r: acc \o labels(r), <<>>, Upto(nr))
      zs == VCat([r \in 1..nr |-> m[r].z_stat])
      se == VCat([r \in 1..nr |-> m[r].std_err]) IN
  << Cl("joint.keys", Same(o.keys, e.in.labs)),
     Cl("joint.betas", CloseD(o.betas, VCat([r \in 1..nr |-> m[r].betas]), 10)),
     Cl("joint.vm", CloseVm(o.vm, vb, 10)),
     Cl("joint.u", CloseD(o.u, Scatter([r \in 1..nr |-> m[r].u], e.in.ri, nr), 10)),
     Cl("joint.predy", CloseD(o.predy, Scatter([r \in 1..nr |-> m[r].predy], e.in.ri, nr), 10)),
     Cl("joint.e_filtered", CloseD(o.e_filtered, Scatter([r \in 1..nr |-> m[r].e_filtered], e.in.ri, nr), 10)),
     Cl("joint.predy_e", Form(e) # "lag" \/ CloseD(o.predy_e, Scatter([r \in 1..nr |-> m[r].predy_e], e.in.ri, nr), 10)),
     Cl("joint.e_pred", Form(e) # "lag" \/ CloseD(o.e_pred, Scatter([r \in 1..nr |-> m[r].e_pred], e.in.ri, nr), 10)),
     Cl("joint.names", Same(NamesOf(e, o), all)) >>
  \o (IF Met(e) = "kp98" THEN RTableNoInf(o.output, all, o.betas, se, zs, 8)
      ELSE RTable(o.output, all, o.betas, se, zs, 8))
SubDesignStage(e, r) == LET o == e.obs.runs[1].multi[r]  p == SubP(e, r) IN <<
  Cl("names", Same(NamesOf(e, o), Append(MultiLabels(e, r), e.in.labs[r] \o "_lambda"))),
  Cl("z", CloseD(IF Form(e) = "x" THEN o.x ELSE o.z, p.Z, 10)),
  Cl("h", Form(e) = "x" \/ Met(e) = "kp98" \/ CloseD(o.h, p.H, 10)),
  Cl("n", CloseD(o.n, Rows(p.y), 12)),
  Cl("k", CloseD(o.k, Cols(p.Z), 12)) >>
  \o (IF Form(e) = "lag" THEN Reduced(o, p.y, p.Z, p.W) ELSE <<>>)
SubStage(e, r, s) ==
  LET k == Hist(e, KSub(e, r) @@ [lam0 |-> IF Met(e) = "kp98" THEN 0 ELSE e.in.lam0[r],
                                  stop |-> IF Met(e) = "kp98" THEN 0 ELSE e.obs.stop.multi[r]], LAMBDA x: x.multi[r]) IN
  CASE s = 1 -> SubDesignStage(e, r)
    [] Met(e) = "kp98" -> IF s = 2 THEN Kp98Fit(k, e.obs.runs[1].multi[r]) ELSE <<>>
    [] s = 2 -> KpStart(k) \o KpStop(k)
    [] OTHER -> IF s - 2 <= M(e) THEN KpIterate(k, s - 2) ELSE <<>>
MultiStage(e, s) ==
  IF Same(e.obs.runs[1].keys, "absent") THEN << Cl("separate-fits", FALSE) >>
  ELSE IF s = 1 THEN FoldLeft(LAMBDA acc, j: acc \o JointRun(e, e.obs.runs[j]), <<>>, Upto(Len(e.obs.runs)))
  ELSE LET r == ((s - 2) \div 5) + 1 IN IF r <= C(e).nr THEN SubStage(e, r, ((s - 2) % 5) + 1) ELSE <<>>

BigNorm(W, r) == Lt(1, Sq(r) ** MaxAll(RowSums(W)) ** MaxAll(ColSums(W)))
Grid21 == [j \in 1..21 |-> Rat(99 * (j - 11), 1000)]
\* see KpIter: a power series whose convergence is not guaranteed may refuse
MayRaiseP(e, k) ==
  LET p == k.PB  c == Minima(KpMom(k, KpFirst(k).u), "none") IN
  \/ Met(e) = "het" /\ Form(e) # "x" /\ C(e).step1c = 1 /\ C(e).inv = "power_exp" /\ \E j \in 1..Len(c) : BigNorm(p.W, c[j] ** Rat(104, 100))
  \/ Form(e) = "lag" /\ \E j \in 1..21 : LET g == Fgls(p, Grid21[j]).b IN BigNorm(p.W, At(g, Rows(g), 1) ** Rat(11, 10))
MayRaise(e) == /\ StrHas(e.exc.msg, "power expansion")
               /\ IF Multi(e) THEN \E r \in 1..C(e).nr : MayRaiseP(e, KSub(e, r)) ELSE MayRaiseP(e, KPool(e))
Stage(s, e) == IF Raised(e) THEN << Cl("call-returns", s > 1 \/ MayRaise(e)) >>
               ELSE IF Multi(e) THEN MultiStage(e, s) ELSE PoolStage(e, s)
TNext == Replay(Stage, 16)
================================================================================
