---------------------------------- MODULE C11 ----------------------------------
(* Recorded Kelejian-Prucha (98/99) GM error fits.                                *)
EXTENDS Iv, KpCore
Prob(e) == [y |-> e.in.y, Z |-> Z(e), H |-> IF e.cfg.form = "x" THEN Z(e) ELSE H(e), W |-> e.in.W, form |-> e.cfg.form]
DesignStage(e) == LET o == e.obs  zn == Append(Labels(Zs(e), Nm(e)), "lambda") IN <<
  Cl("x", CloseD(o.x, Numeric(SelectSeq(Zs(e), LAMBDA c: c.src \in {"one", "x"}), Src(e), e.in.W, N(e)), 10)),
  Cl("names", Same(IF e.cfg.form = "x" THEN o.name_x ELSE o.name_z, zn)),
  Cl("z", e.cfg.form = "x" \/ CloseD(o.z, Z(e), 10)),
  Cl("name_h-names-columns", e.cfg.form = "x" \/ Same(o.h_meaning, HMeaning(e))),
  Cl("n", CloseD(o.n, N(e), 12)),
  Cl("k", CloseD(o.k, Len(Zs(e)), 12)) >>
K(e) == LET p == Prob(e) IN [PB |-> p, PV |-> p, form |-> e.cfg.form, n |-> N(e),
         labels |-> Append(Labels(Zs(e), Nm(e)), "lambda"), table |-> "ordered"]
ReducedStage(e) ==
  IF e.cfg.form # "lag" THEN <<>>
  ELSE LET o == e.obs  n == N(e)  k == Len(Zs(e))  r == At(o.betas, k, 1)
           xb == ColsOf(Z(e), NumSeq(1, k - 1)) ** RowsOf(o.betas, NumSeq(1, k - 1))
           inside == Lt(MAbs(r), 1)
           pe == Solve(Ident(n) -- r ** e.in.W, xb) IN
  << Cl("rho", CloseD(o.rho, r, 9)),
     Cl("predy_e", IF inside THEN CloseD(o.predy_e, pe, 5) ELSE CloseD(o.predy_e, Fill(n, 1, 0), 9)),
     Cl("e_pred", IF inside THEN CloseD(o.e_pred, e.in.y -- pe, 5) ELSE CloseD(o.e_pred, Fill(n, 1, 0), 9)),
     Cl("pr2_e", ~inside \/ CloseD(o.pr2_e, Corr2(e.in.y, pe), 5)) >>
\* a power series that need not converge may refuse the call
BigNorm(e, r) == Lt(1, Sq(r) ** MaxAll(RowSums(e.in.W)) ** MaxAll(ColSums(e.in.W)))
Grid21 == [j \in 1..21 |-> Rat(99 * (j - 11), 1000)]
MayRaise(e) == /\ e.cfg.form = "lag" /\ StrHas(e.exc.msg, "power expansion")
               /\ LET p == Prob(e) IN \E j \in 1..21 : BigNorm(e, At(Fgls(p, Grid21[j]).b, Cols(p.Z), 1) ** Rat(11, 10))
\* hard_bound refuses exactly the fits whose lambda is at the bound (recorded in e.hard,
\* with the observations of the fit without hard_bound)
HardOk(e) == CASE e.cfg.hard = 0 -> TRUE
               [] ~Same(e.hard, "null") -> StrHas(e.hard.msg, "outside the bounds") /\ Lt(Rat(9899, 10000), MAbs(LamOf(e.obs)))
               [] OTHER -> Lt(MAbs(LamOf(e.obs)), Bound)
Stage(s, e) == IF Raised(e) THEN << Cl("call-returns", s > 1 \/ MayRaise(e)) >>
               ELSE CASE s = 1 -> DesignStage(e) [] s = 2 -> Kp98Fit(K(e), e.obs)
                 [] OTHER -> ReducedStage(e) \o << Cl("hard-bound", HardOk(e)) >>
TNext == Replay(Stage, 3)
================================================================================
