---------------------------------- MODULE M06 ----------------------------------
(* Regime design built as the library's users are promised: regime by regime,    *)
(* then the common columns.  Exhaustive over the structural configurations; the  *)
(* invariants relate it to the closed form, to the rows of single observations   *)
(* and to separate fits.                                                         *)
EXTENDS Regi, Json
VARIABLES cfg, r, Z, Q, ri
vars == <<cfg, r, Z, Q, ri>>

Bits(k) == [1..k -> {0, 1}]
NumV(c) == c.kx * (1 + c.slx) + c.ne
Configs ==
  LET S == {[est |-> s[1], kx |-> s[2], slx |-> s[3], ne |-> s[4], nq |-> s[5], nr |-> s[6], one |-> s[7], const |-> s[8]] :
             s \in {"OLS", "TSLS", "GM_Lag"} \X {1, 2} \X {0, 1} \X {0, 1, 2} \X {0, 1, 2} \X {2, 3} \X {0, 1} \X {{}, {1}}}
      Ok(c) == /\ (c.est = "OLS" => c.ne = 0) /\ (c.est = "TSLS" => c.ne > 0)
               /\ c.nq >= c.ne /\ (c.ne = 0 => c.nq = 0) /\ c.nq <= c.ne + 1
               /\ c.const \subseteq 1..(c.kx - 1)
      W(c) == LET kk == (c.kx - Cardinality(c.const)) * (1 + c.slx) + c.ne
              IN {c @@ [vary |-> v] : v \in {b \in Bits(kk) : c.one = 0 \/ \E j \in 1..kk : b[j] = 1}}
  IN UNION {W(c) : c \in {d \in S : Ok(d)}}

KeptX == Kept(cfg.kx, cfg.const)
XC == XCols(KeptX, <<>>, cfg.slx)
EC == Block("e", Upto(cfg.ne), 0) \o (IF cfg.est = "GM_Lag" THEN <<Wy>> ELSE <<>>)
QC == Block("q", Upto(cfg.nq), 0) \o (IF cfg.est = "GM_Lag" THEN Block("x", KeptX, cfg.slx + 1) \o Block("q", Upto(cfg.nq), 1) ELSE <<>>)
VX == <<1 - cfg.one>> \o SubSeq(cfg.vary, 1, Len(XC) - 1)
VE == SubSeq(cfg.vary, Len(XC), Len(cfg.vary)) \o (IF cfg.est = "GM_Lag" THEN <<0>> ELSE <<>>)

\* four observations, in every interleaving of the regimes
MInit == /\ cfg \in Configs /\ r = 0 /\ Z = <<<<>>, <<>>>> /\ Q = <<>>
         /\ ri \in {f \in [1..4 -> 1..cfg.nr] : \A q \in 1..cfg.nr : \E i \in 1..4 : f[i] = q}
Regime == /\ r < cfg.nr /\ r' = r + 1 /\ UNCHANGED <<cfg, ri>>
          /\ Z' = <<Z[1] \o OfRegime(XC, VX, r + 1), Z[2] \o OfRegime(EC, VE, r + 1)>>
          /\ Q' = Q \o OfRegime(QC, AllVary(QC), r + 1)
Common == /\ r = cfg.nr /\ r' = cfg.nr + 1 /\ UNCHANGED <<cfg, Q, ri>>
          /\ Z' = <<Z[1] \o [j \in 1..Len(Fixed(XC, VX)) |-> RC(Fixed(XC, VX)[j], 0)],
                    Z[2] \o [j \in 1..Len(Fixed(EC, VE)) |-> RC(Fixed(EC, VE)[j], 0)]>>
MNext == Regime \/ Common
Done == r = cfg.nr + 1
ZAll == Z[1] \o Z[2]
ClosedForm == Done => Z[1] = RBlock(XC, VX, cfg.nr) /\ Z[2] = RBlock(EC, VE, cfg.nr) /\ Q = RBlock(QC, AllVary(QC), cfg.nr)
\* the columns that can be nonzero for observation i carry every variable once
RowOf(i) == SelectSeq(ZAll, LAMBDA c: c.r \in {0, ri[i]})
EveryVariableOnce == Done => \A i \in 1..4 :
  LET b == [j \in 1..Len(RowOf(i)) |-> RowOf(i)[j].c] IN
  Len(b) = Len(XC) + Len(EC) /\ ToSet(b) = ToSet(XC) \cup ToSet(EC)
\* everything varies => columns of different regimes share no observation (block diagonal
\* cross products, hence separate fits)
Support(c) == {i \in 1..4 : c.r \in {0, ri[i]}}
Separate == (Done /\ \A j \in 1..Len(ZAll) : ZAll[j].r # 0) =>
  \A k, l \in 1..Len(ZAll) : ZAll[k].r # ZAll[l].r => Support(ZAll[k]) \cap Support(ZAll[l]) = {}
Count == Done => Len(Z[1]) = cfg.nr * Len(Vary(XC, VX)) + Len(Fixed(XC, VX))
Nm == [x |-> DefaultNames("v", cfg.kx), e |-> DefaultNames("e", cfg.ne), q |-> DefaultNames("q", cfg.nq), y |-> "y"]
Injective == Done => Cardinality(ToSet(RegLabels(ZAll \o Q, Nm, <<"1", "2", "3">>))) = Len(ZAll) + Len(Q)
Order == Done => Len(Z[1]) + Len(Q) >= Len(ZAll)
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq({[c EXCEPT !.const = SetToSeq(@)] : c \in Configs}))
================================================================================
