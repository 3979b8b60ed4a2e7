---------------------------------- MODULE M33 ----------------------------------
(* Diagnostics of models with regimes: where each statistic is attached (the joint *)
(* model, or the fit of every regime) and White's auxiliary regression, built one  *)
(* pair of regressors at a time in any order and freed of dependent terms.         *)
EXTENDS WhiteRegi, FiniteSets, Json
VARIABLES cfg, todo, M, dropped
vars == <<cfg, todo, M, dropped>>
Bits(k) == [1..k -> {0, 1}]
Configs ==
  LET S == {[est |-> s[1], kx |-> s[2], slx |-> s[3], ne |-> s[4], nr |-> s[5], one |-> s[6], errsep |-> s[7], lagsep |-> s[8], robust |-> s[9], white |-> s[10], moran |-> s[11], nonspat |-> s[12], spat |-> s[13], const |-> {}, creg |-> <<>>] :
             s \in {"OLS", "TSLS", "GM_Lag"} \X {1, 2} \X {0, 1} \X {0, 1} \X {2, 3} \X {0, 1} \X {0, 1} \X {0, 1} \X {"none", "white"} \X {0, 1} \X {0, 1} \X {0, 1} \X {0, 1}}
      Ok(c) == /\ (c.est = "OLS" => c.ne = 0) /\ (c.est = "TSLS" => c.ne = 1)
               /\ (c.est # "OLS" => c.white = 0 /\ c.moran = 0 /\ c.nonspat = 0 /\ c.spat = 1)
               /\ (c.spat = 1 \/ c.nonspat = 1) /\ (c.moran = 1 => c.spat = 1) /\ (c.white = 1 => c.nonspat = 1)
               /\ (c.lagsep = 1 => c.est = "GM_Lag" /\ c.slx = 0) /\ (c.est = "GM_Lag" => c.errsep = c.lagsep)
               /\ (c.nr = 3 => c.kx = 1 \/ c.slx = 0)
      W(c) == LET kk == c.kx * (1 + c.slx) + c.ne
              IN {c @@ [vary |-> v] : v \in {b \in Bits(kk) : c.one = 0 \/ \E j \in 1..kk : b[j] = 1}}
  IN UNION {W(c) : c \in {d \in S : Ok(d)}}
XC == XCols(Upto(cfg.kx), <<>>, cfg.slx)
VX == <<1 - cfg.one>> \o SubSeq(cfg.vary, 1, Len(XC) - 1)
XRs == RBlock(XC, VX, cfg.nr)
Chunks == 1..Len(XRs)
\* the terms of column j with itself, the constant and the other columns
TermsOf(j) == {Mono(XRs[j].r, 1, IndexOf(XRs[j].c, XC))}
  \cup {Product(XRs[j], XRs[l], XC) : l \in {q \in Chunks : ~Disjoint(XRs[j], XRs[q])}}
MInit == /\ cfg \in {c \in Configs : c.est = "OLS" /\ c.white = 1 /\ c.robust = "none" /\ c.moran = 0 /\ c.spat = 0 /\ c.errsep = 0}
         /\ todo = Chunks /\ M = {<<0, 1, 1>>} /\ dropped = {}
\* the columns of one regime arrive in order, the regimes in any order
Add(j) == /\ j \in todo /\ \A l \in todo : XRs[l].r = XRs[j].r => j <= l
          /\ todo' = todo \ {j} /\ M' = M \cup TermsOf(j) /\ UNCHANGED <<cfg, dropped>>
Free == /\ todo = {} /\ \E m \in Dependent(M, cfg.nr) : M' = M \ {m} /\ dropped' = dropped \cup {m}
        /\ UNCHANGED <<cfg, todo>>
MNext == (\E j \in Chunks : Add(j)) \/ Free
Done == todo = {} /\ Dependent(M, cfg.nr) = {}
V == Cardinality({j \in 2..Len(XC) : VX[j] = 1})
F == Len(XC) - 1 - V
Half2(n) == (n * (n + 1)) \div 2
\* closed form of the number of regressors, constant included
ClosedCount == Done => Cardinality(M) = IF cfg.one = 1 THEN 1 + F + Half2(F) + cfg.nr * (V + Half2(V) + V * F)
                                        ELSE Half2(F) + cfg.nr * (1 + V + F + Half2(V) + V * F)
AnyOrder == Done => M = WhiteTerms(XRs, XC, cfg.nr)
\* a constant stays within the span: its own term, or the indicators of all regimes
ConstantSpanned == Done => <<0, 1, 1>> \in M \/ \A r \in 1..cfg.nr : <<r, 1, 1>> \in M
DroppedAreSums == \A m \in dropped : \A r \in 1..cfg.nr : <<r, m[2], m[3]>> \in M
\* everything varies: as many terms as separate auxiliary regressions have together
SeparateCount == (Done /\ cfg.one = 0 /\ F = 0) => Cardinality(M) = cfg.nr * (1 + V + Half2(V))
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq({[c EXCEPT !.const = SetToSeq(@)] : c \in Configs}))
================================================================================
