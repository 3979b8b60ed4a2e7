---------------------------------- MODULE M14 ----------------------------------
(* GM error models with regimes: how a call is carried out.  Errors by regime: one *)
(* procedure per regime, run in any order, each with its own iteration count, then *)
(* assembled by regime; otherwise one procedure on the interacted design.          *)
EXTENDS RegLay, Json
VARIABLES d, maxit, conv, mode, it, done, b
vars == <<d, maxit, conv, mode, it, done, b>>
Bits(k) == [1..k -> {0, 1}]
Cls(f, m) == CASE f = "x" -> (CASE m = "kp98" -> "GM_Error" [] m = "het" -> "GM_Error_Het" [] OTHER -> "GM_Error_Hom")
               [] f = "iv" -> (CASE m = "kp98" -> "GM_Endog_Error" [] m = "het" -> "GM_Endog_Error_Het" [] OTHER -> "GM_Endog_Error_Hom")
               [] OTHER -> (CASE m = "kp98" -> "GM_Combo" [] m = "het" -> "GM_Combo_Het" [] OTHER -> "GM_Combo_Hom")
Designs ==
  LET S == {[form |-> s[1], kx |-> s[2], slx |-> s[3], ne |-> s[4][1], nq |-> s[4][2], nr |-> s[5], one |-> s[6], sep |-> s[7], const |-> s[8]] :
             s \in {"x", "iv", "lag"} \X {1, 2} \X {0, 1} \X {<<0, 0>>, <<1, 1>>, <<1, 2>>} \X {2, 3} \X {0, 1} \X {0, 1} \X {{}, {1}}}
      Ok(c) == /\ (c.form = "x" => c.ne = 0) /\ (c.form = "iv" => c.ne > 0)
               /\ (c.sep = 1 => c.one = 0) /\ (c.sep = 1 /\ c.form = "lag" => c.slx = 0)
               /\ c.const \subseteq 1..(c.kx - 1)
      NV(c) == (c.kx - Cardinality(c.const)) * (1 + c.slx) + c.ne
      All(k) == [j \in 1..k |-> 1]
      V(c) == IF c.sep = 1 THEN {All(NV(c))}
              ELSE {v \in Bits(NV(c)) : c.one = 0 \/ \E j \in 1..NV(c) : v[j] = 1}
  IN UNION {{c @@ [vary |-> v] : v \in V(c)} : c \in {x \in S : Ok(x)}}
Kk(x) == 1 + Len(x.vary) + (IF x.form = "lag" THEN 1 ELSE 0) + 1       \* coefficients of one regime's fit
Multi14(x) == x.sep = 1 /\ x.one = 0 /\ \A j \in 1..Len(x.vary) : x.vary[j] = 1
\* the machine is explored on one design per structure
Roots == {x \in Designs : x.kx = 1 /\ x.slx = 0 /\ x.const = {}}
NProc(x) == IF Multi14(x) THEN x.nr ELSE 1
MInit == /\ d \in Roots /\ maxit \in 1..3 /\ conv \in [1..NProc(d) -> 0..2]
         /\ mode = "call" /\ it = [p \in 1..NProc(d) |-> 0] /\ done = {} /\ b = <<>>
Decide == mode = "call" /\ mode' = (IF Multi14(d) THEN "multi" ELSE "pooled") /\ UNCHANGED <<d, maxit, conv, it, done, b>>
Busy == mode \in {"multi", "pooled"}
Step(p) == /\ Busy /\ p \notin done
           /\ \/ /\ it[p] < maxit /\ (it[p] = 0 \/ conv[p] = 0 \/ it[p] < conv[p])
                 /\ it' = [it EXCEPT ![p] = @ + 1] /\ UNCHANGED done
              \/ /\ ~(it[p] < maxit /\ (it[p] = 0 \/ conv[p] = 0 \/ it[p] < conv[p]))
                 /\ done' = done \cup {p} /\ UNCHANGED it
           /\ UNCHANGED <<d, maxit, conv, mode, b>>
Cell(r, j, n) == [r |-> r, j |-> j, it |-> n]
Assemble == /\ Busy /\ done = 1..NProc(d) /\ mode' = "done"
            /\ b' = (IF mode = "multi"
                     THEN [i \in 1..(d.nr * Kk(d)) |-> LET r == ((i - 1) \div Kk(d)) + 1 IN Cell(r, ((i - 1) % Kk(d)) + 1, it[r])]
                     ELSE [i \in 1..(Len(RBlock(XB(d), VXc(d @@ [est |-> Cls(d.form, "het")]), d.nr)) + 1) |-> Cell(0, i, it[1])])
            /\ UNCHANGED <<d, maxit, conv, it, done>>
MNext == Decide \/ (\E p \in 1..NProc(d) : Step(p)) \/ Assemble
Lesser(x, y) == IF x < y THEN x ELSE y
\* every regime iterates for itself, whatever the order of the steps
OwnIterations == mode = "done" => \A p \in 1..NProc(d) : it[p] = (IF conv[p] = 0 THEN maxit ELSE Lesser(maxit, conv[p]))
\* every cell of the joint vector belongs to exactly one regime's fit
Cells == mode = "done" /\ Multi14(d) => \A r \in 1..d.nr : \A j \in 1..Kk(d) : b[(r - 1) * Kk(d) + j] = Cell(r, j, it[r])
Progress == mode # "done" => ENABLED MNext
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq({[c EXCEPT !.const = SetToSeq(@)] : c \in Designs}))
================================================================================
