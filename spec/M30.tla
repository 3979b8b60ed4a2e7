----------------------------------- MODULE M30 -----------------------------------
(* Reordered calls of every estimator: the group generated by exchanging variables, *)
(* endogenous variables and regimes, acting on the positions of the coefficients.   *)
EXTENDS Equiv, Json
VARIABLES c, t
RelConfigs == {q \in CatConfigs : q.form = "list" /\ q.tex = 0 /\ q.cst = 0}
Walked == {q \in RelConfigs : q.robust = "none" /\ q.wl = 1}
MInit == c \in Walked /\ t = IdT(c)
MNext == \E g \in Gens(c) : t' = Comp(t, g) /\ UNCHANGED c
\* every coefficient moves to exactly one place
OneToOne == Len(Pos(c, t)) = Len(Cols0(c)) /\ ToSet(Pos(c, t)) = 1..Len(Cols0(c))
\* two reorderings in turn are one
Composes == \A g \in Gens(c) : LET p == Pos(c, t)  q == Pos(Act(c, t), g) IN Pos(c, Comp(t, g)) = Through(p, q)
\* labels stay with their columns
Nm0 == [x |-> <<"a", "b">>, y |-> "y", e |-> <<"p", "q">>, q |-> <<"s", "t", "u">>]
Labs0 == <<"r", "s", "t">>
LabelsTravel == LET m == [Nm0 EXCEPT !.x = Through(Nm0.x, t.px), !.e = Through(Nm0.e, t.pe)] IN
  LabelsOf(Act(c, t), m, Through(Labs0, t.pr)) = Through(LabelsOf(c, Nm0, Labs0), Pos(c, t))
\* exchanging twice is nothing
Involution == \A g \in Gens(c) : Comp(Comp(t, g), g) = t
\* models whose coefficients are told apart by their labels: panels, systems, NSLX
Others == [op : {"labels"}, est : {"PooledOLS", "PanelFE", "PanelRE", "GM_ErrorPooled", "GM_ErrorRE", "ML_ErrorPooled", "ML_LagFE", "ML_ErrorFE", "ML_LagRE", "ML_ErrorRE"}, kx : {2}, T : {2, 3}, slx : {0, 1}, units : {0, 1}]
  \cup [op : {"labels"}, est : {"SUR", "ThreeSLS", "SURlagIV", "SURerrorGM", "SURerrorML"}, m : {2, 3}, units : {0, 1}]
  \cup [op : {"labels"}, est : {"NSLX"}, tr : {"exponential", "power"}, units : {0, 1}]
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(RelConfigs) \o SetToSeq(Others))
================================================================================
