----------------------------------- MODULE C26 -----------------------------------
(* A call of a front end next to the direct call of the estimator it selects: every *)
(* public attribute is the same.                                                    *)
EXTENDS Dispatch, Conf
Eq(a, b) == IF a.kind # b.kind THEN FALSE ELSE IF a.kind = "matrix" THEN CloseD(a.value, b.value, 9) ELSE Same(a.value, b.value)
AttrCl(e) ==
  LET a == e.obs.a  b == e.obs.b IN
  << Cl("selects-the-estimator", e.cfg.target = Target(e.cfg) /\ (e.cfg.regi = 0 \/ Same(e.obs.class, Target(e.cfg)))),
     Cl("same-attributes", ToSet(a.names) = ToSet(b.names)) >> \o
  (IF ToSet(a.names) # ToSet(b.names) THEN <<>> ELSE [j \in 1..Len(a.names) |-> Cl("same." \o a.names[j], Eq(a[a.names[j]], b[a.names[j]]))])
Stage(s, e) ==
  IF e.op = "unknown-estimator" THEN
     IF s > 1 THEN <<>> ELSE IF Raised(e) THEN << Cl("unknown-estimator.no-exception", FALSE) >>
     ELSE << Cl("unknown-estimator.warned", Same(e.obs.warned, 1)), Cl("unknown-estimator.default", CloseD(e.obs.betas, e.obs.betas0, 9)) >>
  ELSE IF Raised(e) THEN << Cl("raises-alike", s > 1 \/ (~Same(e.obs.exc2, "null") /\ Same(e.obs.exc2.type, e.exc.type))) >>
  ELSE IF ~Same(e.obs.exc2, "null") THEN << Cl("raises-alike", FALSE) >>
  ELSE IF s = 1 THEN AttrCl(e) ELSE <<>>
TNext == Replay(Stage, 1)
================================================================================
