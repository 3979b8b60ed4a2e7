---------------------------------- MODULE M10 ----------------------------------
(* Which columns enter the auxiliary regressions of the Breusch-Pagan,           *)
(* Koenker-Bassett and White tests.  Regressors are plain, dummies (d*d = d) or  *)
(* signs (s*s = 1) or dummies of one classification (e*e = e, e*f = 0); a column is a monomial, kept once, and the constant monomial *)
(* is the intercept.                                                             *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Mat, Json, TLC
VARIABLES cfg, pc, i, j, mono
vars == <<cfg, pc, i, j, mono>>
Kinds == {"p", "d", "s", "e"}
KindSeqs == {k \in UNION {[1..m -> Kinds] : m \in 1..3} : /\ \E m \in 1..Len(k) : k[m] # "s"
                                                          /\ Cardinality({m \in 1..Len(k) : k[m] = "e"}) # 1}
\* (dummies of one classification and their lags together are too often collinear)
Configs == {c \in [kinds : KindSeqs, slx : 0..1, ne : 0..2] : c.slx = 0 \/ \A m \in 1..Len(c.kinds) : c.kinds[m] # "e"}
K == Len(cfg.kinds)
\* exponent vector of a product of two regressors (index 0 is the intercept)
Red(kind, n) == CASE kind \in {"d", "e"} -> IF n > 0 THEN 1 ELSE 0 [] kind = "s" -> n % 2 [] OTHER -> n
Exclusive(kinds, a, b) == a # 0 /\ b # 0 /\ a # b /\ kinds[a] = "e" /\ kinds[b] = "e"
Prod(a, b) == [m \in 1..K |-> Red(cfg.kinds[m], (IF a = m THEN 1 ELSE 0) + (IF b = m THEN 1 ELSE 0))]
Unit == [m \in 1..K |-> 0]
MInit == cfg \in Configs /\ pc = "white" /\ i = 0 /\ j = 0 /\ mono = {}
\* White's double loop over pairs i <= j, adding each product once
WhiteStep == /\ pc = "white" /\ UNCHANGED <<cfg>>
             /\ mono' = IF Exclusive(cfg.kinds, i, j) THEN mono ELSE mono \cup {Prod(i, j)}   \* a column of zeros is dropped
             /\ IF j < K THEN j' = j + 1 /\ i' = i /\ pc' = pc
                ELSE IF i < K THEN i' = i + 1 /\ j' = i + 1 /\ pc' = pc
                ELSE pc' = "done" /\ UNCHANGED <<i, j>>
MNext == WhiteStep
Count(S, x) == Cardinality({m \in S : m = x})
WhDf(c) == LET k == Len(c.kinds)
               R(kind, n) == CASE kind \in {"d", "e"} -> IF n > 0 THEN 1 ELSE 0 [] kind = "s" -> n % 2 [] OTHER -> n
               P(a, b) == [m \in 1..k |-> R(c.kinds[m], (IF a = m THEN 1 ELSE 0) + (IF b = m THEN 1 ELSE 0))]
           IN Cardinality({P(q[1], q[2]) : q \in {r \in (0..k) \X (0..k) : ~Exclusive(c.kinds, r[1], r[2])}} \ {[m \in 1..k |-> 0]})
BpDf(c) == Cardinality({m \in 1..Len(c.kinds) : c.kinds[m] # "s"})
\* the loop visits every distinct monomial; the closed form counts them
AllPairs == pc = "done" => Cardinality(mono \ {Unit}) = WhDf(cfg)
AtMost == pc = "done" => WhDf(cfg) <= ((K + 1) * (K + 2)) \div 2 - 1
LinearTermsIn == pc = "done" => \A m \in 1..K : Prod(0, m) \in mono
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"),
          SetToSeq({[kinds |-> c.kinds, slx |-> c.slx, ne |-> c.ne, whdf |-> WhDf(c), bpdf |-> BpDf(c)] : c \in Configs}))
================================================================================
