----------------------------------- MODULE M23 -----------------------------------
(* Cutting a minimum spanning tree greedily under a quorum, on all trees of five     *)
(* nodes (up to renaming), with integer attributes; the score of a part is the sum   *)
(* of its differences.  Emits the configurations replayed on the code.                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Mat, Json, TLC
VARIABLES tree, data, forest, k, quorum, score, pc
vars == <<tree, data, forest, k, quorum, score, pc>>
Nodes == 1..5
Path == {<<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 5>>}
Star == {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>}
Fork == {<<1, 2>>, <<2, 3>>, <<3, 4>>, <<3, 5>>}
Pair == {<<1, 2>>, <<2, 3>>, <<4, 5>>}
RECURSIVE Grow(_, _)
Grow(F, S) == LET T == S \cup {e[1] : e \in {x \in F : x[2] \in S}} \cup {e[2] : e \in {x \in F : x[1] \in S}} IN IF T = S THEN S ELSE Grow(F, T)
Parts(F) == {Grow(F, {v}) : v \in Nodes}
\* disagreements inside a part: the attribute takes values 0..2
Cnt(P, v) == Cardinality({u \in P : data[u] = v})
Range1(P) == Cnt(P, 0) * Cnt(P, 1) + Cnt(P, 1) * Cnt(P, 2) + 2 * Cnt(P, 0) * Cnt(P, 2)
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET P == CHOOSE x \in S : TRUE IN Range1(P) + SumOf(S \ {P})
Score(F) == SumOf(Parts(F))
Fine(F) == \A P \in Parts(F) : Cardinality(P) >= quorum
Allowed == {e \in forest : Fine(forest \ {e})}
MInit == /\ tree \in {Path, Star, Fork, Pair} /\ data \in [Nodes -> 0..2] /\ forest = tree /\ k \in 1..4 /\ quorum \in 1..3
         /\ score = -1 /\ pc = IF Fine(tree) THEN "cut" ELSE "refused"
Cut == /\ pc = "cut" /\ Cardinality(Parts(forest)) < k
       /\ \E e \in Allowed : /\ \A f \in Allowed : Score(forest \ {e}) <= Score(forest \ {f})
                             /\ forest' = forest \ {e} /\ score' = Score(forest \ {e})
       /\ UNCHANGED <<tree, data, k, quorum, pc>>
Stop == pc = "cut" /\ (Cardinality(Parts(forest)) >= k \/ Allowed = {}) /\ pc' = "done" /\ UNCHANGED <<tree, data, forest, k, quorum, score>>
MNext == Cut \/ Stop
OnlyCuts == forest \subseteq tree /\ Cardinality(Parts(forest)) = 5 - Cardinality(forest)
QuorumKept == pc # "refused" => Fine(forest)
Nested == \A P \in Parts(forest) : \E Q \in Parts(tree) : P \subseteq Q
NeverWorse == score >= 0 => score <= Score(tree)
TrueScore == score >= 0 => score = Score(forest)
\* short of clusters only where nothing may be cut
Complete == pc = "done" /\ Cardinality(Parts(forest)) < k => Allowed = {}
Fit == [kind : {"rook", "ring", "sym", "two", "star", "island"}, k : 1..4, quorum : {0, 1, 3, 5, 7}, mode : {"attr", "none", "ols", "tsls", "lag", "sm", "olsw"}, kx : 1..2,
        ties : 0..2, metric : {"eucl", "manh", "aff"}, center : {"mean", "max"}, red : {"sum", "max", "mean"}, isl : {"increase", "ignore"}, trace : 0..1, wt : {"r", "o", "b"}]
Ok(c) == /\ (c.mode \notin {"attr", "none"} => c.quorum >= (IF c.mode \in {"tsls", "lag"} THEN 7 ELSE 5) /\ c.center = "mean" /\ c.k <= 3) /\ (c.mode = "none" => c.metric = "eucl" /\ c.ties = 0 /\ c.center = "mean")
         /\ (c.red # "sum" => c.mode = "attr" /\ c.wt # "o") /\ (c.kind \notin {"two", "island"} => c.isl = "increase") /\ (c.quorum >= 5 => c.k <= 3)
         /\ (c.mode = "lag" => c.wt # "b")
Configs == {c \in Fit : Ok(c)}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs))
================================================================================
