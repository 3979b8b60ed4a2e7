----------------------------------- MODULE M27 -----------------------------------
(* The power approximation of the average direct effect, and the configurations      *)
(* replayed.  W has cycles of every multiple of d only, so tr(W^p) = 0 unless d      *)
(* divides p; |rho| = 2^-1, so the p-th term is at most 2^-p; the tolerance is 2^-M. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Mat, Json, TLC
VARIABLES d, neg, p, taken, pc
vars == <<d, neg, p, taken, pc>>
M == 9
MInit == d \in 1..6 /\ neg \in BOOLEAN /\ p = 1 /\ taken = {} /\ pc = "loop"
\* sign and presence of the p-th term play no role for the rule
More == pc = "loop" /\ p < M /\ p' = p + 1 /\ taken' = (IF (p + 1) % d = 0 THEN taken \cup {p + 1} ELSE taken) /\ UNCHANGED <<d, neg, pc>>
Stop == pc = "loop" /\ p >= M /\ pc' = "done" /\ UNCHANGED <<d, neg, p, taken>>
MNext == More \/ Stop
\* no term above the tolerance is left out, whatever the cycles
NothingLeft == pc = "done" => \A j \in 2..(3 * M) : (j % d = 0 /\ j \notin taken) => j > M
Fits == {"GM_Lag", "ML_Lag", "ML_LagFE", "ML_LagRE", "GM_Lag_Regimes", "ML_Lag_Regimes"}
Fit == [op : {"fit"}, est : Fits, kx : 1..3, slx : 0..2, mask : 0..1, cst : 0..1, imp : {"simple", "full", "power", "all", "pair", "bogus", "Upper"},
        ne : 0..1, sep : 0..1, one : 0..1, vary : 0..1]
OkFit(c) == /\ (c.mask = 1 => c.slx > 0 /\ c.kx - c.cst > 1) /\ (c.ne = 1 => c.est = "GM_Lag") /\ (c.cst = 1 => c.kx > 1)
            /\ (c.est \notin {"GM_Lag_Regimes", "ML_Lag_Regimes"} => c.sep = 0 /\ c.one = 0 /\ c.vary = 0)
            /\ (c.est \in {"GM_Lag_Regimes", "ML_Lag_Regimes"} => c.cst = 0)
            /\ (c.vary = 1 => c.kx > 1 /\ c.sep = 0) /\ (c.sep = 1 => c.one = 0)
Rhos == {"-0.95", "-0.6", "-0.2", "0.0", "0.3", "0.6", "0.9"}
Kinds == {"rook", "ring", "cycle", "knn"}
Mlt == [op : {"spmult"}, kind : Kinds, rho : Rhos, method : {"simple", "full", "power", "bogus"}, ids : 0..1]
Invp == [op : {"invprod"}, kind : Kinds, rho : Rhos, method : {"power_exp", "true_inv"}, post : 0..1, cols : 1..2, form : {"W", "csr", "dense"}, thr : {"1e-10", "1e-3"}, maxit : {0, 1, 4}]
OkInvp(c) == (c.method = "true_inv" => c.thr = "1e-10" /\ c.maxit = 0)
Flt == [op : {"filter"}, kind : Kinds, rho : Rhos, T : 1..3, cols : 1..2, form : {"W", "csr"}]
Lgs == [op : {"lags"}, kind : Kinds, p : 1..4, T : 1..2, cols : 1..3, split : 0..3]
OkLgs(c) == (c.split > 0 => c.T = 1 /\ c.split < c.p)
Imu == [op : {"imult"}, model : {"lag", "slx", "kernel", "power", "exponential", "bogus"}, form : {"W", "dense", "csr", "Graph"}, kind : Kinds, rho : {"0.5", "-0.3", "2.0"},
        id : {"none", "array", "series", "frame"}]
\* predictions of the lag models from their own parameters
Configs == {c \in Fit : OkFit(c)} \cup Mlt \cup {c \in Invp : OkInvp(c)} \cup Flt \cup {c \in Lgs : OkLgs(c)} \cup Imu
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs))
================================================================================
