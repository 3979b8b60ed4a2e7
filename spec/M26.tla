----------------------------------- MODULE M26 -----------------------------------
(* Calls of the front ends.                                                         *)
EXTENDS Dispatch, Json
VARIABLE c
Fronts == {q \in CatConfigs : q.est # "Probit" /\ q.tex = 0 /\ (q.est \in Own => q.regi = 1) /\ (q.regi = 1 \/ q.form = "list")}
MInit == c \in Fronts
MNext == FALSE /\ UNCHANGED c
\* a call stands for its own estimator
Selects == Target(c) = c.est \o (IF c.regi = 1 THEN "_Regimes" ELSE "")
\* every estimator can be reached, and no two descriptions select the same one
Calls == {"GMM_Error"} \X {"het", "hom", "kp98"} \X {0, 1} \X {0, 1} \X {0, 1}
R(p) == Resolve(p[1], p[2], p[3], p[4], p[5])
Reachable == {R(p) : p \in Calls} = {g \o Suffix(m) \o s : g \in Gmm, m \in {"het", "hom", "kp98"}, s \in {"", "_Regimes"}}
OneWay == \A p, q \in Calls : R(p) = R(q) => p[2] = q[2] /\ p[4] = q[4] /\ p[5] = q[5] /\ (p[4] = 1 \/ p[3] = q[3])
Emit == TLCGet("distinct") > 0 /\ Reachable /\ OneWay /\ JsonSerialize(Env("GEN_OUT"), SetToSeq({q @@ [front |-> FrontOf(q), method |-> MethodOf(q), wy |-> AddWy(q), target |-> Target(q)] : q \in Fronts}))
================================================================================
