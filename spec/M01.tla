---------------------------------- MODULE M01 ----------------------------------
(* OLS: how a call's inputs become a design matrix.  Exhaustive over the        *)
(* configuration space; every configuration is emitted and replayed.            *)
EXTENDS Design, Json
VARIABLES cfg, pc, cols
vars == <<cfg, pc, cols>>

Masks(k) == {<<>>} \cup {m \in [1..k -> {0, 1}] : \E j \in 1..k : m[j] = 1}
Consts(kx) == {{}} \cup {{j} : j \in 1..kx} \cup (IF kx >= 3 THEN {{1, kx}} ELSE {})
Configs ==
  LET C1(kx, c, s, m) == {[kx |-> kx, const |-> c, slx |-> s, mask |-> m, n_k |-> nk, pandas |-> p, names |-> nm]
                            : nk \in {0, 1}, p \in {0, 1}, nm \in {0, 1}}
      C2(kx, c, s) == UNION {C1(kx, c, s, m) : m \in (IF s = 0 THEN {<<>>} ELSE Masks(kx - Cardinality(c)))}
      C3(kx, c) == UNION {C2(kx, c, s) : s \in 0..2}
      C4(kx) == UNION {C3(kx, c) : c \in {d \in Consts(kx) : Cardinality(d) < kx}}
  IN UNION {C4(kx) : kx \in 1..3}

MInit == cfg \in Configs /\ pc = "input" /\ cols = <<>>
DropConstants == pc = "input" /\ pc' = "kept" /\ UNCHANGED cfg
                 /\ cols' = Block("x", Kept(cfg.kx, cfg.const), 0)
AddIntercept == pc = "kept" /\ pc' = "base" /\ UNCHANGED cfg /\ cols' = <<One>> \o cols
AddLags == pc = "base" /\ pc' = "done" /\ UNCHANGED cfg
           /\ cols' = IF cfg.slx = 0 THEN cols
                      ELSE cols \o LagCols("x", Lagged(Kept(cfg.kx, cfg.const), cfg.mask), 1, cfg.slx)
MNext == DropConstants \/ AddIntercept \/ AddLags

Nm == [x |-> DefaultNames("v", cfg.kx), e |-> <<>>, q |-> <<>>, y |-> "y"]
\* the pipeline ends in the closed form used by the trace specification
DesignIsXCols == pc = "done" => cols = XCols(Kept(cfg.kx, cfg.const), cfg.mask, cfg.slx)
NoDuplicates == pc \in {"base", "done"} => Cardinality(ToSet(cols)) = Len(cols)
LabelsInjective == pc = "done" => Cardinality(ToSet(Labels(cols, Nm))) = Len(cols)
InterceptFirst == pc \in {"base", "done"} => cols[1] = One
NoConstantLeft == \A j \in 1..Len(cols) : cols[j].src = "x" => cols[j].i \notin cfg.const
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs))
================================================================================
