--------------------------------- MODULE KpIter --------------------------------
(* Recorded histories of the KP-HET and KP-HOM procedures (see KpCore).           *)
EXTENDS Iv, KpCore
Prob(e) == [y |-> e.in.y, Z |-> Z(e), H |-> IF e.cfg.form = "x" THEN Z(e) ELSE H(e), W |-> e.in.W, form |-> e.cfg.form]
IsHet(e) == e.cfg.method = "het"
\* the tree keeps the last 2SLS coefficient of HET models in [-0.9, 0.9]; that is the
\* spatial lag in the lag form.  Without a spatial lag there is nothing to bound:
\* clause "endogenous-coefficient-not-clamped".
Clamping(e) == IsHet(e) /\ e.cfg.form # "x"
K(e) == LET p == Prob(e) IN
  [PB |-> p, PV |-> p, het |-> IsHet(e), form |-> e.cfg.form, clamp |-> Clamping(e), A1 |-> KpA1(e.in.W, e.cfg.a1),
   s1c |-> e.cfg.step1c, inv |-> e.cfg.inv, maxit |-> e.cfg.maxit, labels |-> Append(Labels(Zs(e), Nm(e)), "lambda"),
   n |-> N(e), lam0 |-> e.in.lam0, eps |-> e.in.eps, runs |-> e.obs.runs, stop |-> e.obs.stop, asis |-> FALSE, table |-> "ordered"]

DesignStage(e) == LET o == e.obs.runs[1]  zn == Append(Labels(Zs(e), Nm(e)), "lambda") IN <<
  Cl("x", CloseD(o.x, Numeric(SelectSeq(Zs(e), LAMBDA c: c.src \in {"one", "x"}), Src(e), e.in.W, N(e)), 10)),
  Cl("names", Same(IF e.cfg.form = "x" THEN o.name_x ELSE o.name_z, zn)),
  Cl("z", e.cfg.form = "x" \/ CloseD(o.z, Z(e), 10)),
  Cl("name_h-names-columns", e.cfg.form = "x" \/ Same(o.h_meaning, HMeaning(e))),
  Cl("n", CloseD(o.n, N(e), 12)),
  Cl("k", CloseD(o.k, Len(Zs(e)), 12)) >>
ReducedStage(e) ==
  IF e.cfg.form # "lag" THEN <<>>
  ELSE LET o == e.obs.runs[1]  n == N(e)  k == Len(Zs(e))  r == At(o.betas, k, 1)
           xb == ColsOf(Z(e), NumSeq(1, k - 1)) ** RowsOf(o.betas, NumSeq(1, k - 1))
           inside == Lt(MAbs(r), 1)
           pe == Solve(Ident(n) -- r ** e.in.W, xb) IN
  << Cl("rho", CloseD(o.rho, r, 9)),
     Cl("predy_e", IF inside THEN CloseD(o.predy_e, pe, 5) ELSE CloseD(o.predy_e, Fill(n, 1, 0), 9)),
     Cl("e_pred", IF inside THEN CloseD(o.e_pred, e.in.y -- pe, 5) ELSE CloseD(o.e_pred, Fill(n, 1, 0), 9)),
     Cl("pr2_e", ~inside \/ CloseD(o.pr2_e, Corr2(e.in.y, pe), 5)) >>
BigNorm(e, r) == Lt(1, Sq(r) ** MaxAll(RowSums(e.in.W)) ** MaxAll(ColSums(e.in.W)))
\* a power series (step 1c, reduced form) whose convergence is not guaranteed by
\* |rho| sqrt(|W|_1 |W|_inf) < 1 may refuse the call; rho is that of some lambda
Grid21 == [j \in 1..21 |-> Rat(99 * (j - 11), 1000)]
MayRaise(e) ==
  LET p == Prob(e)
      k == [PB |-> p, het |-> IsHet(e), form |-> e.cfg.form, clamp |-> Clamping(e), A1 |-> KpA1(e.in.W, e.cfg.a1)]
      c == Minima(KpMom(k, KpFirst(k).u), "none") IN
  /\ StrHas(e.exc.msg, "power expansion")
  /\ \/ e.cfg.step1c = 1 /\ e.cfg.form # "x" /\ e.cfg.inv = "power_exp" /\ \E j \in 1..Len(c) : BigNorm(e, c[j] ** Rat(104, 100))
     \/ e.cfg.form = "lag" /\ \E j \in 1..21 : LET g == Fgls(p, Grid21[j]).b IN BigNorm(e, At(g, Rows(g), 1) ** Rat(11, 10))
\* hard_bound refuses exactly the fits in which a parameter reaches the bound; such a
\* call is recorded (e.hard) together with the history without hard_bound
AtBound(e) == \/ \E m \in 0..e.cfg.maxit : Lt(Rat(9899, 10000), MAbs(KpLam(K(e), m)))
HardOk(e) == CASE e.cfg.hard = 0 -> TRUE
               [] ~Same(e.hard, "null") -> StrHas(e.hard.msg, "outside the bounds") /\ AtBound(e)
               [] OTHER -> Lt(MAbs(KpLam(K(e), e.cfg.maxit)), Bound)
LastIter == 4
Stage(s, e) == IF Raised(e) THEN << Cl("call-returns", s > 1 \/ MayRaise(e)) >>
               ELSE CASE s = 1 -> DesignStage(e) [] s = 2 -> KpStart(K(e))
                      [] s = 3 -> KpStop(K(e)) \o ReducedStage(e) \o << Cl("hard-bound", HardOk(e)) >>
                      [] OTHER -> IF s - 3 <= e.cfg.maxit THEN KpIterate(K(e), s - 3) ELSE <<>>
TNext == Replay(Stage, 3 + LastIter)
================================================================================
