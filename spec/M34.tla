----------------------------------- MODULE M34 ----------------------------------
(* The report of a system: the writer walks over the equations and, within one,     *)
(* over the regimes, taking the share of a regime from the exogenous coefficients,   *)
(* then from the endogenous ones (a coefficient common to the regimes falls in the   *)
(* last share); the lambda of the equation closes it.                                *)
EXTENDS SurLay, Mat, Json, TLC
VARIABLES cfg, q, k, part, out
vars == <<cfg, q, k, part, out>>
Kxs == {<<2, 2>>, <<3, 3>>, <<2, 3>>, <<3, 2>>, <<2, 2, 2>>, <<3, 2, 3>>}
Kes == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<1, 1, 1>>, <<1, 2, 1>>}
None(kx) == [j \in 1..Len(kx) |-> 0]
Base(est, kx, ke, nr, wy, f, w, lq, d, s, v) ==
  [est |-> est, kx |-> kx, ke |-> ke, nr |-> nr, wy |-> wy, form |-> f, w |-> w, lagq |-> lq, nsd |-> d, spat |-> s, vm |-> v]
Configs ==
  LET F == {"dict", "frame", "stack"}  B == {0, 1}  R == {0, 2, 3}
      S == {Base(t, kx, None(kx), r, "no", f, 0, 0, d, s, v) : t \in {"SUR", "SURerrorGM", "SURerrorML"}, kx \in Kxs, r \in R, f \in F, d \in B, s \in B, v \in B}
      T == {Base("ThreeSLS", kx, ke, r, "no", f, 0, 0, d, 0, 0) : kx \in Kxs, ke \in Kes, r \in R, f \in F, d \in B}
      L == {Base("SURlagIV", kx, ke, r, y, f, w, g, d, s, 0) : kx \in Kxs, ke \in Kes \cup {None(kx) : kx \in Kxs}, r \in R, y \in {"common", "by"}, f \in {"dict", "frame"},
                w \in {1, 2}, g \in B, d \in B, s \in B}
      Ok(c) == /\ Len(c.kx) = Len(c.ke) /\ (c.form = "stack" => \A p \in 1..Len(c.kx) : c.kx[p] = c.kx[1] /\ c.ke[p] = c.ke[1])
               /\ (c.wy = "by" => c.nr > 0) /\ (c.est = "SURlagIV" /\ c.ke[1] = 0 => c.lagq = 0) /\ (c.nr = 3 => Len(c.kx) = 2)
  IN {c \in S \cup T \cup L : Ok(c)}
Roots == {c \in Configs : c.form = "dict" /\ c.nsd = 1 /\ c.spat = (IF c.est = "ThreeSLS" THEN 0 ELSE 1) /\ c.lagq = 0 /\ c.w < 2}
MInit == cfg \in Roots /\ q = 1 /\ k = 0 /\ part = "x" /\ out = <<>>
NR == Len(Regs(cfg.nr))
X == EqX(cfg.kx[q], cfg.nr)
En == EqE(cfg.ke[q], cfg.nr, cfg.wy)
Share(s) == SubSeq(s, ((k * Len(s)) \div NR) + 1, ((k + 1) * Len(s)) \div NR)
WriteX == q <= Len(cfg.kx) /\ part = "x" /\ out' = out \o Share(X) /\ part' = "e" /\ UNCHANGED <<cfg, q, k>>
WriteE == q <= Len(cfg.kx) /\ part = "e" /\ out' = out \o Share(En)
          /\ (IF k + 1 < NR THEN k' = k + 1 /\ part' = "x" ELSE k' = k /\ part' = "lambda") /\ UNCHANGED <<cfg, q>>
NextEq == q <= Len(cfg.kx) /\ part = "lambda" /\ q' = q + 1 /\ k' = 0 /\ part' = "x" /\ out' = <<>> /\ UNCHANGED cfg
MNext == WriteX \/ WriteE \/ NextEq
Written == part = "lambda"
Z == EqZ(cfg.kx[q], cfg.ke[q], cfg.nr, cfg.wy)
EachOnce == Written => Len(out) = Len(Z) /\ ToSet(out) = ToSet(Z) /\ Cardinality(ToSet(out)) = Len(out)
InOrder == Written => out = RowOrder(cfg.kx[q], cfg.ke[q], cfg.nr, cfg.wy)
RegimeTogether == Written => \A a, b \in 1..Len(out) : a < b /\ out[a].r = out[b].r => \A p \in a..b : out[p].r = out[a].r
EndogAfterExog == Written => \A a, b \in 1..Len(out) : out[a].s # "x" /\ out[b].s = "x" /\ out[a].r = out[b].r => b < a
CommonLast == Written /\ cfg.wy = "common" => out[Len(out)] = Var("w", 0, 0)
Progress == ENABLED MNext \/ q > Len(cfg.kx)
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs))
================================================================================
