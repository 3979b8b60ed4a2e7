----------------------------------- MODULE M19 ----------------------------------
(* Spatial systems.  The lag model assembles its endogenous columns in steps: the  *)
(* spatial lag joins before the interaction with the regimes when it varies by     *)
(* regime, after it otherwise; then the instruments are lagged.  The ML error model *)
(* alternates GLS and lambda until the likelihood settles.                          *)
EXTENDS SurLag, Mat, Json, TLC
VARIABLES cfg, phase, en, ins, t
vars == <<cfg, phase, en, ins, t>>
Seqs(S, n) == [1..n -> S]
Kxs == {<<2, 2>>, <<3, 3>>, <<2, 3>>, <<3, 2>>, <<2, 2, 2>>, <<3, 2, 3>>}
Kes == {<<0, 0>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<0, 0, 0>>, <<1, 1, 1>>, <<1, 2, 1>>}
Configs ==
  LET L == {[est |-> "SURlagIV", kx |-> k, ke |-> a, nr |-> r, wy |-> y, form |-> f, w |-> w, lagq |-> q, nsd |-> d, spat |-> s, vm |-> 0] :
              k \in Kxs, a \in Kes, r \in {0, 2, 3}, y \in {"common", "by"}, f \in {"dict", "frame"}, w \in {1, 2, 3}, q \in {0, 1}, d \in {0, 1}, s \in {0, 1}}
      G == {[est |-> "SURerrorGM", kx |-> k, ke |-> [j \in 1..Len(k) |-> 0], nr |-> r, wy |-> "no", form |-> f, w |-> 0, lagq |-> 0, nsd |-> d, spat |-> s, vm |-> 0] :
              k \in Kxs, r \in {0, 2, 3}, f \in {"dict", "frame", "stack"}, d \in {0, 1}, s \in {0, 1}}
      X == {[c EXCEPT !.est = "SURerrorML", !.vm = v] : c \in G, v \in {0, 1}}
      Ok(c) == /\ Len(c.kx) = Len(c.ke) /\ (c.form = "stack" => \A q \in 1..Len(c.kx) : c.kx[q] = c.kx[1])
               /\ (c.wy = "by" => c.nr > 0)
               /\ (c.ke[1] = 0 => c.lagq = 0) /\ (c.nr > 0 /\ Len(c.kx) > 2 => c.nr = 2)
  IN {c \in L \cup G \cup X : Ok(c)}
Roots == {c \in Configs : c.form = "dict" /\ c.nsd = 1 /\ c.spat = 1}
MInit == cfg \in Roots /\ phase = "begin" /\ en = <<>> /\ ins = <<>> /\ t = 0
Lag == cfg.est = "SURlagIV"
Kq(q) == cfg.ke[q] + 1
Each(F(_)) == [q \in 1..Len(cfg.kx) |-> F(q)]
Raw == phase = "begin" /\ Lag /\ phase' = (IF cfg.wy = "by" THEN "join" ELSE "interact")
       /\ en' = Each(LAMBDA q: [i \in 1..cfg.ke[q] |-> Var("e", i, 0)]) /\ UNCHANGED <<cfg, ins, t>>
Join == phase = "join" /\ phase' = (IF cfg.wy = "by" THEN "interact" ELSE "lag")
        /\ en' = Each(LAMBDA q: Append(en[q], Var("w", 0, 0))) /\ UNCHANGED <<cfg, ins, t>>
Interact == phase = "interact" /\ phase' = (IF cfg.wy = "by" THEN "lag" ELSE "join")
        /\ en' = Each(LAMBDA q: Flat([r \in 1..Len(Regs(cfg.nr)) |-> [j \in 1..Len(en[q]) |-> [en[q][j] EXCEPT !.r = Regs(cfg.nr)[r]]]]))
        /\ UNCHANGED <<cfg, ins, t>>
\* one more power of W
LagOn == phase = "lag" /\ t < cfg.w /\ t' = t + 1 /\ UNCHANGED <<cfg, phase, en>>
         /\ ins' = Each(LAMBDA q: LET qs == IF cfg.ke[q] = 0 THEN <<>> ELSE EqQ(Kq(q), cfg.nr)  wx == Tail(EqX(cfg.kx[q], cfg.nr)) IN
              [x |-> (IF t = 0 THEN <<>> ELSE ins[q].x) \o [j \in 1..Len(wx) |-> [v |-> wx[j], p |-> t + 1]],
               q |-> (IF t = 0 THEN <<>> ELSE ins[q].q) \o (IF cfg.lagq = 1 THEN [j \in 1..Len(qs) |-> [v |-> qs[j], p |-> t + 1]] ELSE <<>>)])
End == phase = "lag" /\ t = cfg.w /\ phase' = "built" /\ UNCHANGED <<cfg, en, ins, t>>
MNext == Raw \/ Join \/ Interact \/ LagOn \/ End
Kqq(q) == IF cfg.ke[q] = 0 THEN 0 ELSE Kq(q)
Built == phase = "built" => \A q \in 1..Len(cfg.kx) :
  LET qs == EqQ(Kqq(q), cfg.nr) IN
  /\ en[q] = EqE(cfg.ke[q], cfg.nr, cfg.wy)
  /\ [j \in 1..Len(qs) |-> [v |-> qs[j], p |-> 0]] \o ins[q].x \o ins[q].q = Insts(cfg.kx[q], Kqq(q), cfg.nr, cfg.w, cfg.lagq)
\* enough instruments for the endogenous columns
Identified == phase = "built" => \A q \in 1..Len(cfg.kx) : Len(Insts(cfg.kx[q], Kqq(q), cfg.nr, cfg.w, cfg.lagq)) >= Len(en[q])
\* the lag closes the coefficients of every equation, unless it varies by regime
LagLast == phase = "built" => \A q \in 1..Len(cfg.kx) : en[q][Len(en[q])].s = "w"
\* only variables interacted with the regimes are tested for constancy over them
TestedVary == phase = "built" /\ cfg.nr > 0 => \A q \in 1..Len(cfg.kx) :
  LET z == EqZ(cfg.kx[q], cfg.ke[q], cfg.nr, cfg.wy) IN
  /\ Len(Tested(z)) = cfg.kx[q] + cfg.ke[q] + (IF cfg.wy = "by" THEN 1 ELSE 0)
  /\ \A v \in ToSet(Tested(z)) : \A p \in 1..(cfg.nr - 1) : LET c == Within1(z, v, cfg.nr)[p] IN
       z[c[1]].s = z[c[2]].s /\ z[c[1]].i = z[c[2]].i /\ z[c[1]].r # z[c[2]].r
Progress == ENABLED MNext \/ phase = "built" \/ ~Lag
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs))
================================================================================
