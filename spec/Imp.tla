----------------------------------- MODULE Imp -----------------------------------
(* Spatial multipliers of (I - rho W)^-1 and the average effects they imply.        *)
EXTENDS Tab
IrW(W, r) == Ident(Rows(W)) -- r ** W
Mult(W, r) == Inv(IrW(W, r))
Total(r) == 1 // (1 -- r)
Direct(W, r) == Trace(Mult(W, r)) // Rows(W)
RECURSIVE PowSum(_, _, _, _)
\* 1 + sum of r^j tr(W^j)/n for j = 2..p (W has no diagonal)
PowSum(W, P, j, r) == IF j < 2 THEN 1 ELSE PowSum(W, P, j - 1, r) ++ P[j]
Powers(W, r, p) == LET f[j \in 1..p] == IF j = 1 THEN r ** W ELSE r ** (W ** f[j - 1]) IN f
Truncated(W, r, p) == LET f == Powers(W, r, p) \o <<>> IN
  FoldLeft(LAMBDA a, j: a ++ Trace(f[j]) // Rows(W), Rat(1, 1), NumSeq(2, p))
\* sum of the first terms of the series applied to d
RECURSIVE Series(_, _, _, _)
Series(W, d, r, p) == IF p = 0 THEN d ELSE d ++ r ** (W ** Series(W, d, r, p - 1))
LagPre(l) == IF l = 0 THEN "" ELSE IF l = 1 THEN "W_" ELSE "W" \o ToString(l) \o "_"
Has(s, x) == \E j \in 1..Len(s) : s[j] = x
\* total and direct effect of the variable v with prefix pre; all of the lags' effect is indirect
Coef(names, b, x) == At(b, Find(names, x), 1)
WxCoef(names, b, pre, v, l) ==
  IF Has(names, pre \o LagPre(l) \o v) THEN Coef(names, b, pre \o LagPre(l) \o v)
  ELSE IF pre # "" /\ Has(names, "_Global_" \o LagPre(l) \o v) THEN Coef(names, b, "_Global_" \o LagPre(l) \o v) ELSE Rat(0, 1)
Effect(names, b, pre, v, slx, ati, adi) ==
  LET own == Coef(names, b, pre \o v)  g == FoldLeft(LAMBDA a, l: a ++ WxCoef(names, b, pre, v, l), Rat(0, 1), NumSeq(1, slx))
      t == ati ** (own ++ g)  d == adi ** own IN [dir |-> d, ind |-> t -- d, tot |-> t]
================================================================================
