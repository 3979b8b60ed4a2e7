---------------------------------- MODULE M07 ----------------------------------
(* Tests of coefficient stability: the contrasts are taken variable by variable   *)
(* from a base regime.  Checked for every layout: a contrast compares one and the  *)
(* same variable, the rows vanish exactly for equal coefficients, all of them      *)
(* together have full row rank (each row has a coefficient of its own), and the    *)
(* hypothesis does not depend on the base regime.                                  *)
EXTENDS RegLay, Json
VARIABLES cfg, base, i, R, beta
vars == <<cfg, base, i, R, beta>>
Bits(k) == [1..k -> {0, 1}]
Configs ==
  LET S == {[est |-> s[1], kx |-> s[2], ne |-> s[3], nr |-> s[4], one |-> s[5], sep |-> s[6]] :
              s \in Ests \X {1, 2} \X {0, 1, 2} \X {2, 3} \X {0, 1} \X {0, 1}}
      Ok(c) == /\ (c.est \in Exogs => c.ne = 0) /\ (c.est \in Endogs => c.ne > 0)
      W(c) == {c @@ [vary |-> v] : v \in {b \in Bits(c.kx + c.ne) :
                 /\ c.one = 0 \/ \E j \in 1..(c.kx + c.ne) : b[j] = 1
                 /\ c.sep = 1 => (c.est \in {"OLS", "TSLS", "GM_Lag"} \/ (c.one = 0 /\ \A j \in 1..(c.kx + c.ne) : b[j] = 1))}}
  IN UNION {W(c) : c \in {d \in S : Ok(d)}}
\* the coefficients of one variable across the regimes: all patterns
MInit == /\ cfg \in Configs /\ base \in 1..cfg.nr /\ i = 0 /\ R = <<>> /\ beta \in [1..cfg.nr -> {0, 1, 2}]
Test == /\ i < Len(Tested(cfg)) /\ i' = i + 1 /\ R' = R \o Contrast(cfg, Tested(cfg)[i + 1], base)
        /\ UNCHANGED <<cfg, base, beta>>
MNext == Test
L == WithVar(cfg)
SameVariable == \A k \in 1..Len(R) : /\ L[R[k][1]].c = L[R[k][2]].c /\ L[R[k][1]].r # L[R[k][2]].r
                                     /\ L[R[k][1]].r # 0 /\ L[R[k][2]].r # 0
Degrees == Len(R) = i * (cfg.nr - 1)
\* the subtracted coefficient occurs in no other row
Independent == \A k, m \in 1..Len(R) : k # m => R[k][2] \notin {R[m][1], R[m][2]}
Val(q) == beta[L[q].r]
Rows1 == LET n == cfg.nr - 1 IN SubSeq(R, Len(R) - n + 1, Len(R))
Vanish == i > 0 => ((\A k \in 1..Len(Rows1) : Val(Rows1[k][1]) = Val(Rows1[k][2])) <=> (\A r \in 1..cfg.nr : beta[r] = beta[base]))
\* where the common coefficients come last the tree's positions are the right ones
AsIsRight == (i > 0 /\ ~MultiFit(cfg) /\ ~Mixed(cfg) /\ base = 1) => Rows1 = AsIs(cfg, Tested(cfg)[i])
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq({c @@ [mixed |-> IF Mixed(c) THEN 1 ELSE 0, multi |-> IF MultiFit(c) THEN 1 ELSE 0] : c \in Configs}))
================================================================================
