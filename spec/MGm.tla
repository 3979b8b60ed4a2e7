---------------------------------- MODULE MGm ----------------------------------
(* The multi-step GM procedures as a state machine over symbolic quantities:       *)
(* L[i] is the i-th estimate of lambda, a refit at lambda i is "fit i", residuals   *)
(* of fit i give moments i.  `conv` is the first iteration at which the change in   *)
(* lambda is within epsilon (0: never), chosen nondeterministically.               *)
EXTENDS Design, Json
VARIABLES cfg, pc, it, lam, fit, mom, wgt, vmat, why
vars == <<cfg, pc, it, lam, fit, mom, wgt, vmat, why>>
MaxIt == 4
Designs ==
  LET D1(f, kx, s, m) == {[form |-> f, kx |-> kx, const |-> c, slx |-> s, mask |-> m, wl |-> wl, ne |-> eq[1], nq |-> eq[2], lagq |-> lq] :
             wl \in (IF f = "lag" THEN 1..2 ELSE {1}),
             eq \in (CASE f = "x" -> {<<0, 0>>} [] f = "iv" -> {<<1, 1>>, <<1, 2>>, <<2, 2>>} [] OTHER -> {<<0, 0>>, <<1, 1>>, <<1, 2>>}),
             lq \in (IF f = "lag" THEN {0, 1} ELSE {1}),
             c \in {{}} \cup (IF kx = 3 /\ m = <<>> THEN {{2}} ELSE {})}
      Masks(k) == {<<>>} \cup {m \in [1..k -> {0, 1}] : \E j \in 1..k : m[j] = 1}
      D2(f, kx, s) == UNION {D1(f, kx, s, m) : m \in (IF s = 0 THEN {<<>>} ELSE Masks(kx))}
  IN UNION {D2(f, kx, s) : f \in {"x", "iv", "lag"}, kx \in 1..3, s \in 0..2}
Protocols == {[method |-> "kp98", maxit |-> 1, conv |-> 0, step1c |-> 0, a1 |-> "none"]}
   \cup {[method |-> "het", maxit |-> m, conv |-> c, step1c |-> s, a1 |-> "het"] : m \in 1..MaxIt, c \in 0..MaxIt, s \in {0, 1}}
   \cup {[method |-> "hom", maxit |-> m, conv |-> c, step1c |-> 0, a1 |-> a] : m \in 1..MaxIt, c \in 0..MaxIt, a \in {"hom", "hom_sc", "het"}}

MInit == /\ cfg \in Protocols
         /\ pc = "first" /\ it = 0 /\ lam = -1 /\ fit = -1 /\ mom = -1 /\ wgt = "none" /\ vmat = <<>> /\ why = ""
\* fit -1 is the unfiltered first step; lambda 0 comes from its residuals
First == /\ pc = "first" /\ lam' = 0 /\ mom' = -1
         /\ wgt' = (IF cfg.step1c = 1 THEN "first" ELSE "none")
         /\ pc' = (IF cfg.method = "kp98" THEN "kp" ELSE "loop")
         /\ UNCHANGED <<cfg, it, fit, vmat, why>>
KpRefit == /\ pc = "kp" /\ fit' = 0 /\ pc' = "done" /\ vmat' = <<0, 0>>
           /\ UNCHANGED <<cfg, it, lam, mom, wgt, why>>
Changed == it = 0 \/ cfg.conv = 0 \/ it < cfg.conv
Loop == /\ pc = "loop" /\ it < cfg.maxit /\ Changed
        /\ fit' = lam                       \* refit on data filtered by the last lambda
        /\ mom' = it + 1                    \* moments of the refit's residuals
        /\ wgt' = "last"                    \* weighted by the covariance at the last lambda
        /\ lam' = it + 1 /\ it' = it + 1
        /\ UNCHANGED <<cfg, pc, vmat, why>>
Stop == /\ pc = "loop" /\ ~(it < cfg.maxit /\ Changed)
        /\ why' = (IF it = cfg.maxit THEN "limit" ELSE "converged")
        /\ vmat' = <<lam, mom>> /\ pc' = "done"
        /\ UNCHANGED <<cfg, it, lam, fit, mom, wgt>>
MNext == First \/ KpRefit \/ Loop \/ Stop
Lesser(a, b) == IF a < b THEN a ELSE b
IterRule == pc = "done" /\ cfg.method # "kp98" => it = (IF cfg.conv = 0 THEN cfg.maxit ELSE Lesser(cfg.maxit, cfg.conv))
FitOneBehind == pc = "done" => fit = lam - (IF cfg.method = "kp98" THEN 0 ELSE 1)
Reason == pc = "done" /\ cfg.method # "kp98" => (why = "limit" <=> it = cfg.maxit)
TrueReason == pc = "done" /\ why = "converged" => cfg.conv = it
VmAtLast == pc = "done" => vmat[1] = lam
Progress == pc # "done" => ENABLED MNext
\* a run stopped after m iterations is a prefix of a longer run: the check uses the
\* runs limited to 1, 2, ... iterations as the history of the longer one
Prefix == it <= cfg.maxit /\ lam <= it
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), [designs |-> SetToSeq(Designs), protocols |-> SetToSeq(Protocols)])
================================================================================
