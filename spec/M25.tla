----------------------------------- MODULE M25 -----------------------------------
(* A user breaks and repairs the arguments of a call and submits it.  The objects   *)
(* the arguments name carry a version that changes whenever anybody writes to them: *)
(* only the user does.                                                              *)
EXTENDS Inputs, Json
CONSTANT Depth
VARIABLES c, bad, version, edits, outcome
vars == <<c, bad, version, edits, outcome>>
Args == {"y", "x", "yend", "q", "coords", "w", "regimes", "robust", "slx_vars", "cols2regi"}
MInit == c \in InCalls /\ bad = {} /\ version = [a \in Args |-> 0] /\ edits = [a \in Args |-> 0] /\ outcome = "none"
Touch(a) == version' = [version EXCEPT ![a] = @ + 1] /\ edits' = [edits EXCEPT ![a] = @ + 1]
Break == /\ Cardinality(bad) < Depth /\ outcome = "none"
         /\ \E b \in Bads(c) : (\A o \in bad : o[1] # b[1]) /\ bad' = bad \cup {b} /\ Touch(b[1])
         /\ UNCHANGED <<c, outcome>>
Submit == outcome = "none" /\ outcome' = (IF Stopped(bad) = 0 THEN "results" ELSE "error") /\ UNCHANGED <<c, bad, version, edits>>
Repair == outcome = "error" /\ \E b \in bad : bad' = bad \ {b} /\ Touch(b[1]) /\ outcome' = "none" /\ UNCHANGED c
MNext == Submit \/ Break \/ (Repair /\ \A a \in Args : version[a] < 2)
\* results come from well-formed calls only, and well-formed calls get results
OnlyWellFormed == (outcome = "results" => bad = {}) /\ (outcome = "error" => bad # {})
\* one malformation is enough, whatever else is wrong
NoMasking == \A b \in bad : Stopped(bad) <= Stopped({b}) /\ Stopped({b}) > 0
UserWrites == version = edits
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq({q @@ [bads |-> SetToSeq({b[1] \o ":" \o b[2] : b \in Bads(q)})] : q \in InCalls}))
================================================================================
