----------------------------------- MODULE M05 -----------------------------------
(* Columns and labels of every estimator and option combination.                   *)
EXTENDS Cat, Json
VARIABLE c
MInit == c \in CatConfigs
MNext == FALSE /\ UNCHANGED c
Nm0 == [x |-> <<"a", "b", "c">>, y |-> "y", e |-> <<"p", "q">>, q |-> <<"s", "t", "u">>]
Labs0 == <<"r", "s", "t">>
\* no two columns of a model share a label
Injective == LET l == LabelsOf(c, Nm0, Labs0) IN Cardinality(ToSet(l)) = Len(l)
\* a removed constant leaves no column, and no lag of it
NoConstant == LET l == Cols0(c) IN \A j \in 1..Len(l) : l[j].c.src = "x" => l[j].c.i \notin Const(c)
\* every base column appears once overall or once per regime
Count == LET l == Cols0(c) IN \A b \in ToSet(XB(c) \o EB(c)) : LET m == Cardinality({j \in 1..Len(l) : l[j].c = b}) IN m = 1 \/ (c.regi = 1 /\ m = c.nr)
Contiguous(l, r) == LET p == {j \in 1..Len(l) : l[j].r = r} IN \A i, j \in p : \A k \in i..j : k \in p
Blocks == Multi(c) => LET l == Cols0(c) IN \A r \in 1..c.nr : Contiguous(l, r)
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(CatConfigs))
================================================================================
