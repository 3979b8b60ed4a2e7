----------------------------------- MODULE M22 ----------------------------------
(* Probit: Newton's loop and its warning, and the configurations replayed.         *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Mat, Json, TLC
VARIABLES cfg, it, small, pc
vars == <<cfg, it, small, pc>>
\* variables, a constant among them, spatial lags, which are lagged, optimiser, starting values,
\* scale of the effects, bound on the iterations, tests, prediction table, data container
All == [kx : 1..3, cst : 0..1, slx : 0..2, mask : 0..1, optim : {"newton", "bfgs", "ncg"}, start : 0..1, scalem : {"phimean", "xmean"},
        maxiter : {1, 2, 3, 100}, spat : 0..1, pred : 0..1, pandas : 0..1]
Ok(c) == (c.mask = 1 => c.slx > 0 /\ c.kx > 1) /\ (c.optim # "newton" => c.maxiter = 100) /\ (c.kx = 1 => c.cst = 0)
Configs == {c \in All : Ok(c)}
Cap(c) == IF c.maxiter = 100 THEN 5 ELSE c.maxiter
Roots == {c \in Configs : c.kx = 1 /\ c.slx = 0 /\ c.optim = "newton" /\ c.start = 0 /\ c.scalem = "xmean" /\ c.spat = 0 /\ c.pred = 0 /\ c.pandas = 0}
\* small: the decrement at the point last left is below the tolerance
MInit == cfg \in Roots /\ it = 0 /\ small = FALSE /\ pc = "loop"
Step == pc = "loop" /\ it < Cap(cfg) /\ ~small /\ it' = it + 1 /\ small' \in BOOLEAN /\ UNCHANGED <<cfg, pc>>
Leave == pc = "loop" /\ (it = Cap(cfg) \/ small) /\ pc' = (IF it = Cap(cfg) THEN "warned" ELSE "done") /\ UNCHANGED <<cfg, it, small>>
MNext == Step \/ Leave
AtLeastOneStep == pc # "loop" => it >= 1
Bounded == it <= Cap(cfg)
NoSilentFailure == pc = "done" => small
WarnedAtBound == pc = "warned" => it = Cap(cfg)
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs))
================================================================================
