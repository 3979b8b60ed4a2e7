----------------------------------- MODULE M28 -----------------------------------
(* Which points are neighbours at which scaled distance: k nearest within a bound,   *)
(* on a line of integer points; and the configurations replayed.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Mat, Json, TLC
VARIABLES pos, k, bound, done, nb
vars == <<pos, k, bound, done, nb>>
Pts == 1..5
D(i, j) == IF pos[i] > pos[j] THEN pos[i] - pos[j] ELSE pos[j] - pos[i]
\* neighbours are added nearest first
MInit == /\ pos \in {f \in [Pts -> {0, 1, 3, 4, 7, 12}] : \A i \in Pts : \A j \in Pts : i < j => f[i] < f[j]} /\ k \in 1..4 /\ bound \in {2, 5, 100} /\ done = {} /\ nb = [i \in Pts |-> {}]
Rest(i) == {j \in Pts \ (nb[i] \cup {i}) : D(i, j) < bound}
Add(i) == /\ i \notin done /\ Cardinality(nb[i]) < k /\ Rest(i) # {}
          /\ \E j \in Rest(i) : (\A l \in Rest(i) : D(i, j) <= D(i, l)) /\ nb' = [nb EXCEPT ![i] = @ \cup {j}]
          /\ UNCHANGED <<pos, k, bound, done>>
Close(i) == i \notin done /\ (Cardinality(nb[i]) >= k \/ Rest(i) = {}) /\ done' = done \cup {i} /\ UNCHANGED <<pos, k, bound, nb>>
Next1 == CHOOSE i \in Pts \ done : \A j \in Pts \ done : i <= j
MNext == done # Pts /\ (Add(Next1) \/ Close(Next1))
Complete == \A i \in done : /\ i \notin nb[i] /\ Cardinality(nb[i]) <= k
                            /\ \A j \in nb[i] : D(i, j) < bound /\ \A l \in Pts \ (nb[i] \cup {i}) : D(i, l) < bound => D(i, j) <= D(i, l)
                            /\ Cardinality(nb[i]) < k => \A l \in Pts \ {i} : D(i, l) < bound => l \in nb[i]
Run == [kx : 1..3, cst : 0..1, par : {"exp", "power", "default", "multi", "mixed"}, K : {2, 4, 7}, bound : {"inf", "tight", "loose"}, slx : {"All", "first", "last", "allflags"},
        vf : 0..1, metric : {"Euclidean", "Arc"}, form : {"array", "frame", "points"}, names : 0..1, far : 0..1, dup : 0..1]
Ok(c) == /\ (c.cst = 1 => c.kx > 1) /\ (c.slx # "All" => c.kx - c.cst > 1) /\ (c.par \in {"multi", "mixed"} => c.kx - c.cst > 1) /\ (c.par = "default" => c.K = 7 /\ c.bound = "inf")
         /\ (c.dup = 1 => c.bound # "tight" /\ c.K > 2)
Configs == {c \in Run : Ok(c)}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs))
================================================================================
