----------------------------------- MODULE M35 ----------------------------------
(* Headings: the traits of every configuration, written one after the other, and     *)
(* what a reader can conclude from them.                                             *)
EXTENDS Cat, Head, Json
VARIABLES c, todo, said
vars == <<c, todo, said>>
Methods == {"full", "ord", "LU"}
\* names of the data set, of the weights and of the regimes: given or not
Heads == {[est |-> k.est, regi |-> k.regi, slx |-> k.slx, sep |-> k.sep, robust |-> k.robust, full |-> IF AllV(k) THEN 1 ELSE 0] : k \in CatConfigs}
Said0(h) == Has(h, h.regi = 1 /\ h.sep = 1 /\ h.full = 1)
MInit == c \in Heads /\ todo = Said0(c) /\ said = {}
Say == \E t \in todo : said' = said \cup {t} /\ todo' = todo \ {t} /\ UNCHANGED c
MNext == Say
Done == todo = {}
\* a heading says everything there is to say, and nothing it must not
Complete == Done => said = Said0(c) /\ said \cap Lacks(c, c.regi = 1 /\ c.sep = 1 /\ c.full = 1) = {}
\* every trait has words, and two models with the same traits are the same model
Worded == \A t \in Said0(c) : Words(t) # {}
Model(h) == <<h.est, h.slx > 0, h.regi, h.regi = 1 /\ h.sep = 1 /\ h.full = 1, h.est = "OLS" /\ h.regi = 1 /\ h.sep = 1 /\ h.full = 0 /\ h.robust = "none">>
Telling == Done => \A h \in Heads : Said0(h) = said => Model(h) = Model(c)
Panels == {[est |-> e, slx |-> s, regi |-> 0] : e \in PanelE, s \in 0..2}
Systems == {[est |-> e, slx |-> 0, regi |-> r] : e \in SystemE, r \in 0..1}
TellingP == \A h, k \in Panels \cup Systems : HasP(h) = HasP(k) => h.est = k.est /\ (h.slx > 0) = (k.slx > 0) /\ h.regi = k.regi
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(CatConfigs))
================================================================================
