---------------------------------- MODULE M04 ----------------------------------
(* Spatial 2SLS: assembling regressors Z and instruments H step by step.          *)
EXTENDS Design, Json
VARIABLES cfg, pc, p, Z, H
vars == <<cfg, pc, p, Z, H>>

Masks(k) == {<<>>} \cup {m \in [1..k -> {0, 1}] : \E j \in 1..k : m[j] = 1}
Configs ==
  LET C1(kx, c, s, m) == {[kx |-> kx, const |-> c, slx |-> s, mask |-> m, wl |-> wl, ne |-> eq[1], nq |-> eq[2], lagq |-> lq]
          : wl \in 1..3, eq \in {<<0, 0>>, <<1, 1>>, <<1, 2>>, <<2, 2>>}, lq \in {0, 1}}
      C2(kx, c, s) == UNION {C1(kx, c, s, m) : m \in (IF s = 0 THEN {<<>>} ELSE Masks(kx - Cardinality(c)))}
      C3(kx, c) == UNION {C2(kx, c, s) : s \in 0..2}
      C4(kx) == UNION {C3(kx, c) : c \in {d \in SUBSET (1..kx) : Cardinality(d) < 2 /\ Cardinality(d) < kx}}
  IN UNION {C4(kx) : kx \in 1..3}
D == [kept |-> Kept(cfg.kx, cfg.const), mask |-> cfg.mask, slx |-> cfg.slx, ne |-> cfg.ne, nq |-> cfg.nq,
      lagq |-> cfg.lagq, wl |-> cfg.wl]

MInit == cfg \in Configs /\ pc = "x" /\ p = 0 /\ Z = <<>> /\ H = <<>>
Exog == /\ pc = "x" /\ pc' = "endog" /\ UNCHANGED <<cfg, p>>
        /\ Z' = XCols(D.kept, D.mask, D.slx) /\ H' = Z'
Endog == /\ pc = "endog" /\ pc' = "inst" /\ UNCHANGED <<cfg, p>>
         /\ Z' = Z \o Block("e", Upto(cfg.ne), 0) \o <<Wy>>
         /\ H' = H \o Block("q", Upto(cfg.nq), 0)
\* one more power of W applied to the previous block of instruments
Inst == /\ pc = "inst" /\ p < cfg.wl /\ p' = p + 1 /\ UNCHANGED <<cfg, pc, Z>>
        /\ LET prev == IF p = 0 THEN Block("x", D.kept, cfg.slx) \o (IF cfg.lagq = 1 THEN Block("q", Upto(cfg.nq), 0) ELSE <<>>)
                       ELSE SubSeq(H, Len(H) - (Len(D.kept) + cfg.lagq * cfg.nq) + 1, Len(H))
           IN H' = H \o [j \in 1..Len(prev) |-> [prev[j] EXCEPT !.lag = @ + 1]]
Done == pc = "inst" /\ p = cfg.wl /\ pc' = "done" /\ UNCHANGED <<cfg, p, Z, H>>
MNext == Exog \/ Endog \/ Inst \/ Done

ClosedForm == pc = "done" => Z = ZLag(D) /\ H = HLag(D)
OrderCondition == pc = "done" => Len(H) >= Len(Z)
HDistinct == Cardinality(ToSet(H)) = Len(H)
ZDistinct == Cardinality(ToSet(Z)) = Len(Z)
\* every exogenous regressor instruments itself; nothing endogenous is an instrument
OwnInstrument == pc = "done" => \A j \in 1..Len(Z) : Z[j].src \in {"one", "x"} => Z[j] \in ToSet(H)
NoEndogInH == \A j \in 1..Len(H) : H[j].src \notin {"e", "y"}
LagIsLast == pc = "done" => Z[Len(Z)] = Wy
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs))
================================================================================
