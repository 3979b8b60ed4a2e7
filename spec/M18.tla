----------------------------------- MODULE M18 ----------------------------------
(* SUR: two-step and iterated feasible GLS, 3SLS; and the contrasts of the tests  *)
(* of equal coefficients, built equation by equation.                             *)
EXTENDS SurLay, Mat, Json, TLC
VARIABLES cfg, conv, t, phase, done
vars == <<cfg, conv, t, phase, done>>
Seqs(S, n) == [1..n -> S]
Configs ==
  LET B == {[est |-> "SUR", kx |-> k, ke |-> [j \in 1..Len(k) |-> 0], wy |-> "no", nr |-> nr, form |-> f, iter |-> it, maxiter |-> m, eps |-> e, spat |-> s, nsd |-> d] :
              k \in Seqs({2, 3}, 2) \cup Seqs({2, 3}, 3), nr \in {0, 2, 3}, f \in {"dict", "frame", "stack"}, it \in {0, 1}, m \in {0, 1, 2, 9},
              e \in {"tight", "mid", "loose"}, s \in {0, 1}, d \in {0, 1}}
      T == {[est |-> "ThreeSLS", kx |-> k, ke |-> a, wy |-> "no", nr |-> nr, form |-> f, iter |-> 0, maxiter |-> 0, eps |-> "mid", spat |-> 0, nsd |-> d] :
              k \in {<<2, 2>>, <<2, 3>>, <<3, 2>>, <<2, 2, 3>>, <<3, 3, 3>>}, a \in {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<1, 2, 1>>, <<1, 1, 1>>},
              nr \in {0, 2, 3}, f \in {"dict", "frame", "stack"}, d \in {0, 1}}
      Ok(c) == /\ Len(c.kx) = Len(c.ke)
               /\ (c.iter = 0 => c.maxiter = 0 /\ c.eps = "mid")
               /\ (c.form = "stack" => \A q \in 1..Len(c.kx) : c.kx[q] = c.kx[1] /\ c.ke[q] = c.ke[1])
  IN {c \in B \cup T : Ok(c)}
Roots == {c \in Configs : c.form = "dict" /\ c.spat = 0 /\ c.nsd = 1 /\ (c.iter = 1 => c.nr = 0 /\ Len(c.kx) = 2 /\ c.eps = "mid")}
MInit == cfg \in Roots /\ conv \in 0..4 /\ t = 0 /\ phase = "est" /\ done = 0
\* the change of the log determinant first falls below the tolerance before iteration conv + 1
Iterate == phase = "est" /\ cfg.iter = 1 /\ t < conv /\ t < cfg.maxiter /\ t' = t + 1 /\ UNCHANGED <<cfg, conv, phase, done>>
Stop == phase = "est" /\ (cfg.iter = 0 \/ t >= conv \/ t >= cfg.maxiter) /\ phase' = "test" /\ UNCHANGED <<cfg, conv, t, done>>
K == Ks(cfg)
EqualK == \A q \in 1..Len(K) : K[q] = K[1]
Todo == IF EqualK THEN K[1] ELSE 0
Test == phase = "test" /\ done < Todo /\ done' = done + 1 /\ UNCHANGED <<cfg, conv, t, phase>>
MNext == Iterate \/ Stop \/ Test
LimitHolds == t <= cfg.maxiter
StopsFirst == phase # "est" => (cfg.iter = 0 /\ t = 0) \/ t = IF conv < cfg.maxiter THEN conv ELSE cfg.maxiter
\* every stacked position belongs to one coefficient of one equation
Stacked == phase = "est" /\ t = 0 =>
  LET P == UNION {{<<q, j>> : j \in 1..K[q]} : q \in 1..Len(K)} IN
  /\ \A p \in 1..Total(K) : \E v \in P : Pos(K, v[1], v[2]) = p
  /\ Cardinality(P) = Total(K)
\* a contrast compares the coefficients of the same variable
SameVar == done > 0 => LET j == done IN \A k \in 1..(Len(K) - 1) : LET c == Between(K, j)[k] IN c[1] \in 1..K[1] /\ c[2] = Pos(K, k + 1, j)
WithinSame == done = 0 /\ phase = "test" => \A q \in 1..Len(K) : cfg.nr > 0 =>
  LET z == EqZ(cfg.kx[q], cfg.ke[q], cfg.nr, cfg.wy)  T == Tested(z) IN
  /\ Len(T) = cfg.kx[q] + cfg.ke[q] + (IF cfg.wy = "by" THEN 1 ELSE 0)
  /\ \A v \in ToSet(T) : \A p \in 1..(cfg.nr - 1) : LET c == Within1(z, v, cfg.nr)[p] IN
       z[c[1]].s = z[c[2]].s /\ z[c[1]].i = z[c[2]].i /\ z[c[1]].r # z[c[2]].r
Progress == ENABLED MNext \/ (phase = "test" /\ done >= Todo)
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs))
================================================================================
