---------------------------------- MODULE M15 ----------------------------------
(* ML lag / error models with regimes: separate maximisations per regime, in any  *)
(* order, or one on the interacted design; and the configurations to be replayed. *)
EXTENDS RegLay, Json
VARIABLES d, mode, fitted, b
vars == <<d, mode, fitted, b>>
Bits(k) == [1..k -> {0, 1}]
Masks(k) == {<<>>} \cup {m \in Bits(k) : \E j \in 1..k : m[j] = 1}
Designs ==
  LET S == {[est |-> s[1], kx |-> s[2], slx |-> s[3], nr |-> s[4], one |-> s[5], sep |-> s[6], const |-> s[7], method |-> s[8], ne |-> 0, nq |-> 0] :
             s \in {"ML_Lag", "ML_Error"} \X {1, 2, 3} \X {0, 1, 2} \X {2, 3} \X {0, 1} \X {0, 1} \X {{}, {1}} \X {"full", "LU", "ord"}}
      Ok(c) == /\ (c.sep = 1 => c.one = 0) /\ c.const \subseteq 1..(c.kx - 1) /\ (c.slx = 2 => c.kx < 3)
      Kp(c) == c.kx - Cardinality(c.const)
      Ms(c) == IF c.slx = 0 THEN {<<>>} ELSE Masks(Kp(c))
      NV(c, m) == Kp(c) + (c.slx * (IF m = <<>> THEN Kp(c) ELSE Cardinality({j \in DOMAIN m : m[j] = 1})))
      V(c, m) == IF c.sep = 1 THEN {[j \in 1..NV(c, m) |-> 1]}
                 ELSE {v \in Bits(NV(c, m)) : c.one = 0 \/ \E j \in 1..NV(c, m) : v[j] = 1}
  IN UNION {UNION {{c @@ [mask |-> m, vary |-> v] : v \in V(c, m)} : m \in Ms(c)} : c \in {x \in S : Ok(x)}}
Lay(x) == [est |-> x.est, kx |-> Len(x.vary), ne |-> 0, nr |-> x.nr, one |-> x.one, sep |-> x.sep, vary |-> x.vary]
Roots == {x \in Designs : x.const = {} /\ x.method = "full" /\ x.mask = <<>> /\ x.slx = 0}
MInit == d \in Roots /\ mode = "call" /\ fitted = {} /\ b = <<>>
Decide == mode = "call" /\ mode' = (IF MultiFit(Lay(d)) THEN "multi" ELSE "pooled") /\ UNCHANGED <<d, fitted, b>>
Parts == IF mode = "multi" THEN 1..d.nr ELSE {0}
Fit(r) == mode \in {"multi", "pooled"} /\ r \in Parts \ fitted /\ fitted' = fitted \cup {r} /\ UNCHANGED <<d, mode, b>>
Assemble == /\ mode \in {"multi", "pooled"} /\ fitted = Parts
            /\ b' = (IF mode = "multi" THEN FoldLeft(LAMBDA a, r: a \o One1(Lay(d), r), <<>>, Upto(d.nr))
                     ELSE RBlock(XB(Lay(d)), VXc(Lay(d)), d.nr) \o (IF d.est = "ML_Lag" THEN <<RC(Wy, 0)>> ELSE <<RC(Lam, 0)>>))
            /\ mode' = "done" /\ UNCHANGED <<d, fitted>>
MNext == Decide \/ (\E r \in 0..d.nr : Fit(r)) \/ Assemble
LayoutHolds == mode = "done" => b = Layout(Lay(d))
OneParameterPerFit == mode = "done" => Cardinality({j \in 1..Len(b) : b[j].c \in {Wy, Lam}}) = (IF MultiFit(Lay(d)) THEN d.nr ELSE 1)
Progress == mode # "done" => ENABLED MNext
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq({[c EXCEPT !.const = SetToSeq(@)] : c \in Designs}))
================================================================================
