-------------------------------- MODULE GuardLaws --------------------------------
(* What Conf relies on: a clause that cannot be evaluated is violated, others are not. *)
EXTENDS Conf
GInit == ev = 1 /\ stage = 0 /\ bad = {}
GNext == stage < 2 /\ stage' = stage + 1 /\ UNCHANGED <<ev, bad>>
Guards == /\ Attempt(<<1>>[3], "none") = "none" /\ Attempt(1 + 1, 0) = 2
          /\ Failed(<< Cl("a", [b |-> 1].c = 2), Cl("b", TRUE), Cl("c", At(FromSeq(<<1>>), 2, 2) = 1 \/ TRUE), Cl("d", FALSE) >>) \in {{"a", "d"}, {"a", "c", "d"}}
          /\ Failed(Attempt([j \in 1..2 |-> IF j = 1 THEN Cl("a", TRUE) ELSE <<1>>[2]], << <<"readable", FALSE>> >>)) = {"readable"}
==================================================================================
