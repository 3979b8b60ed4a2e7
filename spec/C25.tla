----------------------------------- MODULE C25 -----------------------------------
(* Recorded calls: malformed ones must be refused, well-formed ones answered, and   *)
(* no argument differs afterwards.                                                  *)
EXTENDS Inputs, Conf
Named(e) == {<<b[1], b[2]>> : b \in ToSet(e.cfg.bad)}
Keeps(e) == [j \in 1..Len(e.obs.args) |-> LET a == e.obs.args[j] IN Cl("keeps-its-arguments." \o a.name, Same(a.before, a.after))]
Stage(s, e) ==
  IF s > 1 THEN <<>>
  ELSE IF e.op = "function" THEN << Cl("answers", Returned(e)) >> \o Keeps(e)
  ELSE IF e.cfg.bad # <<>> THEN
       << Cl("known-malformation", Named(e) \subseteq Bads(e.cfg) /\ Stopped(Named(e)) > 0),
          Cl("refuses." \o e.cfg.bad[1][1] \o "." \o e.cfg.bad[1][2], Raised(e)) >> \o Keeps(e)
  ELSE << Cl("answers", Returned(e)) >> \o Keeps(e) \o
       (IF Raised(e) THEN <<>> ELSE << Cl("same-again", Same(e.obs.exc2, "null") /\ CloseD(e.obs.betas, e.obs.betas2, 9)) >>)
TNext == Replay(Stage, 1)
================================================================================
