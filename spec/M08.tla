---------------------------------- MODULE M08 ----------------------------------
(* One job per regime, given to worker processes.  The caller submits the jobs in  *)
(* the order of the regimes; the arguments of a job are copied some time after its *)
(* submission, the job ends some time after that; the caller waits and then reads  *)
(* each result through the handle of its own job.  Checked for every interleaving: *)
(* every regime gets the result of its own job whatever the order of completion,   *)
(* the caller neither reads early nor waits for ever, and the arguments a worker   *)
(* copies are those the caller had when it submitted (the caller changes nothing   *)
(* while jobs are out: `data` is the version of its data).                         *)
EXTENDS RegLay, Json
CONSTANT NR
VARIABLES nr, st, snap, res, data, coll, hist
vars == <<nr, st, snap, res, data, coll, hist>>
Regs == 1..nr
MInit == /\ nr \in 2..NR /\ st = [r \in 1..nr |-> "new"] /\ snap = [r \in 1..nr |-> <<>>] /\ res = [r \in 1..nr |-> 0]
         /\ data = 1 /\ coll = <<>> /\ hist = <<>>
Submit(r) == /\ st[r] = "new" /\ \A q \in 1..(r - 1) : st[q] # "new"
             /\ st' = [st EXCEPT ![r] = "sub"] /\ hist' = Append(hist, <<"S", r>>)
             /\ UNCHANGED <<nr, snap, res, data, coll>>
Take(r) == /\ st[r] = "sub" /\ st' = [st EXCEPT ![r] = "run"] /\ snap' = [snap EXCEPT ![r] = <<r, data>>]
           /\ hist' = Append(hist, <<"P", r>>) /\ UNCHANGED <<nr, res, data, coll>>
Finish(r) == /\ st[r] = "run" /\ st' = [st EXCEPT ![r] = "done"] /\ res' = [res EXCEPT ![r] = snap[r][1]]
             /\ hist' = Append(hist, <<"C", r>>) /\ UNCHANGED <<nr, snap, data, coll>>
\* close and join the pool, then get() every handle
Collect == /\ coll = <<>> /\ (\A q \in Regs : st[q] = "done") /\ coll' = [r \in Regs |-> res[r]]
           /\ UNCHANGED <<nr, st, snap, res, data, hist>>
Step == Collect \/ \E r \in Regs : Submit(r) \/ Take(r) \/ Finish(r)
MNext == Step
OwnResult == coll # <<>> => \A r \in Regs : coll[r] = r
OwnData == \A r \in Regs : snap[r] # <<>> => snap[r] = <<r, 1>>
NotStuck == coll # <<>> \/ ENABLED Step
\* completion order alone does not tell the regime: it takes every permutation
Finished == SelectSeq(hist, LAMBDA h: h[1] = "C")
OnceEach == \A j, k \in 1..Len(Finished) : j # k => Finished[j] # Finished[k]
RECURSIVE Scheds(_, _)
\* all complete interleavings from the state s (number of steps done per regime)
Scheds(s, n) ==
  LET opt == {r \in 1..n : s[r] < 3 /\ (s[r] = 0 => \A q \in 1..(r - 1) : s[q] > 0)}
  IN IF opt = {} THEN {<<>>}
     ELSE UNION {{<<<<"S", "P", "C">>[s[r] + 1] \o ToString(r)>> \o t : t \in Scheds([s EXCEPT ![r] = @ + 1], n)} : r \in opt}
AllScheds == UNION {Scheds([r \in 1..n |-> 0], n) : n \in 2..3}
Configs ==
  {[est |-> s[1], kx |-> s[2], ne |-> s[3], nr |-> s[4], std |-> s[5], slx |-> s[6], creg |-> s[7], nq |-> s[3] + (IF s[3] > 0 THEN s[5] ELSE 0)] :
     s \in {t \in Ests \X {1, 2, 3} \X {0, 1, 2} \X {2, 3, 4} \X {0, 1} \X {0, 1} \X {<<>>, <<1>>, <<2>>} :
        /\ t[1] \in Exogs => t[3] = 0
        /\ t[1] \in Endogs => t[3] > 0
        /\ t[1] \in {"GM_Lag", "ML_Lag"} \cup Combos => t[6] = 0
        /\ \A j \in ToSet(t[7]) : j <= t[2] /\ t[2] > 1
        /\ t[7] = <<>> \/ t[6] = 0}}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), [scheds |-> SetToSeq(AllScheds), cfgs |-> SetToSeq(Configs)])
================================================================================
