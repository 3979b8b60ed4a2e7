------------------------------------ MODULE M32 ------------------------------------
(* Choosing the number of regimes: the scan as a machine over score sequences with     *)
(* drops 0, 1, 5, and the space of calls of the endogenous regime estimators.          *)
EXTENDS Mojena, FiniteSets, Json, TLC
VARIABLES seq, win, i, went, pc
vars == <<seq, win, i, went, pc>>
RECURSIVE Down(_, _)
Down(a, d) == IF d = <<>> THEN <<a>> ELSE <<a>> \o Down(a - Head(d), Tail(d))
Seqs == UNION {{Down(40, d) : d \in [1..k -> {0, 1, 5}]} : k \in 0..6}
MInit == seq \in Seqs /\ win \in {0, 2, 3} /\ (win = 0 \/ win < Len(seq)) /\ i = 0 /\ went = <<>> /\ pc = "scan"
W == Window(Len(seq), win)
Test == /\ pc = "scan" /\ i < Len(seq) - W
        /\ \E go \in Outcomes(seq, W, i) : went' = Append(went, go) /\ pc' = IF go THEN "scan" ELSE "stop"
        /\ i' = i + 1 /\ UNCHANGED <<seq, win>>
Exhaust == pc = "scan" /\ i >= Len(seq) - W /\ pc' = "stop" /\ UNCHANGED <<seq, win, i, went>>
MNext == Test \/ Exhaust
Result == i + W
AgreesWithScan == pc = "stop" => Result \in Chosen(seq, win)
AtLeastTwo == pc = "stop" => Result >= 2 /\ (Len(seq) >= 2 => Result <= Len(seq))
\* every partition accepted on the way was a significant drop, the last test at most was not
StopsFirst == \A j \in 1..Len(went) : ~went[j] => j = Len(went) /\ pc = "stop"
ScaleFree == pc = "stop" /\ i > 0 => Outcomes([j \in 1..Len(seq) |-> 3 * seq[j]], W, i - 1) = Outcomes(seq, W, i - 1)
Moj == {[op |-> "optim", s |-> s, w |-> w] : s \in Seqs, w \in {0, 2, 3}}
Fit == [op : {"fit"}, cls : {"OLS", "TSLS", "GM_Lag"}, k : {0, 2, 3, 4}, quorum : {-1, 6, 8, 11, 20}, trace : 0..1, n : {22, 30, 46, 64}, kx : 1..2,
        kind : {"rook", "ring", "two"}, wt : {"r", "o"}, opt : {"plain", "sig2n_k", "white", "vm", "const", "names", "spat", "ids", "pandas", "regi_args"}]
Quorum(c) == IF c.quorum > 0 THEN c.quorum ELSE 30
Ok(c) == /\ (c.k = 0 => c.trace = 1 /\ c.kind # "two") /\ (c.quorum = -1 => c.n = 64 /\ c.k \in {0, 2, 3}) /\ (c.cls # "OLS" => c.quorum \in {-1, 8, 11, 20})
         /\ (c.n > c.k * Quorum(c) \/ c.opt = "plain") /\ (c.cls = "GM_Lag" => c.opt # "spat")
         /\ (c.k = 0 => (7 * c.n) \div (10 * Quorum(c)) <= 9)
Configs == {c \in Fit : Ok(c)}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs) \o SetToSeq({m \in Moj : m.w < Len(m.s) /\ Len(m.s) \in {1, 2, 3, 5, 7}}))
================================================================================
