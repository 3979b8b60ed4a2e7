---------------------------------- MODULE MMl ----------------------------------
(* Bounded one-dimensional search for the maximiser of a concentrated likelihood, *)
(* and the design of the ML models: every bracketing search that discards only    *)
(* the part beyond the worse of two probes ends at the optimum of a unimodal       *)
(* profile, wherever it is.  Emits the configurations to be replayed.              *)
EXTENDS Design, Json
VARIABLES cfg, lo, hi, best
vars == <<cfg, lo, hi, best>>
N == 12
F(p, v) == IF v < p THEN 2 * (p - v) ELSE 3 * (v - p)
Masks(k) == {<<>>} \cup {m \in [1..k -> {0, 1}] : \E j \in 1..k : m[j] = 1}
Configs ==
  LET C1(kx, c, s, m) == {[kx |-> kx, const |-> c, slx |-> s, mask |-> m, method |-> me] : me \in {"full", "LU", "ord"}}
      C2(kx, c, s) == UNION {C1(kx, c, s, m) : m \in (IF s = 0 THEN {<<>>} ELSE Masks(kx - Cardinality(c)))}
      C3(kx, c) == UNION {C2(kx, c, s) : s \in 0..2}
      C4(kx) == UNION {C3(kx, c) : c \in {d \in SUBSET (1..kx) : Cardinality(d) < 2 /\ Cardinality(d) < kx}}
  IN UNION {C4(kx) : kx \in 1..3}
MInit == cfg \in 0..N /\ lo = 0 /\ hi = N /\ best = -1
Probe == /\ hi - lo > 1
         /\ \E a \in lo..hi, b \in lo..hi :
              /\ a < b /\ (lo < a \/ b < hi)
              /\ IF F(cfg, a) <= F(cfg, b) THEN hi' = b /\ lo' = lo ELSE lo' = a /\ hi' = hi
         /\ UNCHANGED <<cfg, best>>
Stop == /\ hi - lo <= 1 /\ best = -1
        /\ best' = (IF F(cfg, lo) <= F(cfg, hi) THEN lo ELSE hi)
        /\ UNCHANGED <<cfg, lo, hi>>
MNext == Probe \/ Stop
InBracket == lo <= cfg /\ cfg <= hi
Optimal == best # -1 => best = cfg
D(c) == [kept |-> Kept(c.kx, c.const), mask |-> c.mask, slx |-> c.slx]
LayoutOk == lo = 0 /\ hi = N => \A c \in Configs : LET cs == XCols(D(c).kept, c.mask, c.slx)
                     IN Cardinality(ToSet(cs)) = Len(cs) /\ Len(cs) = 1 + Len(D(c).kept) + c.slx * Len(Lagged(D(c).kept, c.mask))
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs))
================================================================================
