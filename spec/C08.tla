---------------------------------- MODULE C08 ----------------------------------
(* Recorded models fitted regime by regime.  e.in: ri labs W0 y; e.obs: the whole  *)
(* model and obs.multi[r] in the order of obs.keys; e.sep[r]: the estimator without*)
(* regimes run on the rows of regime r with weights e.wr[r]; e.par: runs with      *)
(* worker processes under given schedules.                                         *)
EXTENDS Conf, Regi
Nr(e) == e.cfg.nr
Mem(e, r) == Members(e.in.ri, r)
Num(v) == IsMat(v)
\* optimised parameters agree to the precision of the optimiser
Dig(e) == IF e.cfg.est \in {"ML_Lag", "ML_Error"} THEN 4 ELSE IF e.cfg.est \in {"OLS", "TSLS", "GM_Lag"} THEN 9 ELSE 5
\* equal where the separate fit has the attribute
Agree(a, b, d) == IF Num(b) THEN Num(a) /\ CloseD(a, b, d) ELSE (Same(b, "absent") \/ Same(a, b))
Attr == <<"betas", "vm", "u", "predy", "utu", "sig2", "e_filtered", "predy_e", "e_pred", "rho", "lam", "logll", "n", "k", "iteration">>
\* rows of a stacked vector that belong to regime r
Own(e, v, r) == RowsOf(v, Mem(e, r))
Stacked == <<"u", "predy", "e_filtered", "predy_e", "e_pred">>
Stage(s, e) ==
  IF Raised(e) THEN 
       \* only with the failure of some regime's own fit
       << Cl("call-returns", s > 1 \/ \E r \in 1..Nr(e) : ~Same(e.sepexc[r], "null") /\ Same(e.sepexc[r].msg, e.exc.msg)) >>
  ELSE LET nr == Nr(e)  o == e.obs IN
  CASE s = 1 -> << Cl("one-result-per-regime", Same(o.keys, e.in.labs)) >>
         \o (IF ~Same(o.keys, e.in.labs) THEN <<>> ELSE
             [r \in 1..nr |-> Cl("restricted-weights", Same(e.w[r], "absent") \/ CloseD(e.w[r], SubW(e.in.W0, Mem(e, r), e.cfg.std), 12))]
             \o [r \in 1..nr |-> Cl("separate-fit-uses-restricted-weights", Same(e.wr[r], "absent") \/ CloseD(e.wr[r], SubW(e.in.W0, Mem(e, r), e.cfg.std), 12))])
    [] s = 2 -> IF ~Same(o.keys, e.in.labs) THEN <<>> ELSE
         FoldLeft(LAMBDA acc, r: acc \o
           (IF Same(e.sep[r], "null") THEN << Cl("separate-fit-exists", FALSE) >> ELSE
            [j \in 1..Len(Attr) |-> Cl("separate." \o Attr[j], Agree(Fld(o.multi[r], Attr[j]), Fld(e.sep[r], Attr[j]), Dig(e)))]), <<>>, Upto(nr))
    [] s = 3 -> IF ~Same(o.keys, e.in.labs) THEN <<>> ELSE
         << Cl("stacked.betas", CloseD(o.betas, VCat([r \in 1..nr |-> o.multi[r].betas]), 11)),
            Cl("stacked.vm", CloseD(o.vm, BDiag([r \in 1..nr |-> o.multi[r].vm]), 11)) >>
         \o FoldLeft(LAMBDA acc, a: acc \o
              (IF ~Num(Fld(o.multi[1], a)) THEN <<>> ELSE
               << Cl("stacked." \o a, Num(Fld(o, a)) /\ CloseD(Fld(o, a), Scatter([r \in 1..nr |-> Fld(o.multi[r], a)], e.in.ri, nr), 11)) >>), <<>>, Stacked)
         \o << Cl("regime-sizes", \A r \in 1..nr : Same(o.multi[r].n, Len(Mem(e, r)))),
               Cl("chow-parameters", Same(o.kr, e.kz) /\ Same(o.kf, 0) /\ Same(o.nr, nr)) >>
    [] OTHER -> FoldLeft(LAMBDA acc, p: acc \o
         (IF ~Same(p.exc, "null") THEN << Cl("parallel-returns", FALSE) >> ELSE
          << Cl("parallel-keys", Same(p.obs.keys, o.keys)),
             Cl("parallel.betas", CloseD(p.obs.betas, o.betas, 12)), Cl("parallel.vm", CloseD(p.obs.vm, o.vm, 12)),
             Cl("parallel.u", CloseD(p.obs.u, o.u, 12)), Cl("parallel.predy", CloseD(p.obs.predy, o.predy, 12)),
             Cl("parallel-names", Same(p.names, e.names)),
             Cl("parallel-summary", Same(p.summary, e.summary)) >>), <<>>, e.par)
TNext == Replay(Stage, 4)
================================================================================
