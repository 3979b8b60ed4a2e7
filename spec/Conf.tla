---------------------------------- MODULE Conf ---------------------------------
(* Trace validation.  Events is the sequence of calls recorded from the real    *)
(* code; a behaviour takes one event through the stages of its specification,   *)
(* accumulating in `bad` the names of the clauses the recorded observation      *)
(* violates.  Verdicts are total: every event gets exactly one VERDICT line.    *)
EXTENDS Mat, FiniteSets, TLC
VARIABLES ev, stage, bad
cvars == <<ev, stage, bad>>

Events == LoadTrace(Env("TRACE"))
\* x, or d where x cannot be evaluated (java/Guard.java): a clause that cannot read
\* the observation is violated
Attempt(x, d) == x
Cl(name, ok) == <<name, Attempt(ok, FALSE)>>
Failed(cl) == {cl[k][1] : k \in {j \in DOMAIN cl : ~cl[j][2]}}

TInit == /\ ev \in 1..Len(Events)
         /\ stage = 0
         /\ bad = {}

\* StageClauses(s, e): the clauses event e must satisfy at stage s (1..n)
Replay(StageClauses(_, _), n) ==
  /\ stage < n
  /\ stage' = stage + 1
  /\ ev' = ev
  /\ bad' = bad \cup Failed(Attempt(StageClauses(stage + 1, Events[ev]), << <<"readable", FALSE>> >>))
  /\ stage + 1 = n => PrintT(<<"VERDICT", ev, bad'>>)

\* the event's call returned normally
Returned(e) == Same(e.exc, "null")
Raised(e) == ~Returned(e)
================================================================================
