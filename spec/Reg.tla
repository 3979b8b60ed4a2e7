---------------------------------- MODULE Reg ----------------------------------
(* Reference definitions of the estimators' building blocks, as formulas over   *)
(* matrices.  y is n x 1, X is n x k, W is n x n dense in row order.            *)
EXTENDS Mat, SequencesExt

SumSq(u) == SumAll(u (.) u)
Mean(y) == SumAll(y) // Rows(y)
Sq(a) == a ** a
Sqrt(a) == MSqrt(a)
Dot(a, b) == Tr(a) ** b
TwoPi == Dec("6.283185307179586476925286766559005768394")
LN(a) == MLog(a)
Half == Rat(1, 2)
NumSeq(m, n) == [j \in 1..(n - m + 1) |-> m + j - 1]
Head1(b, k) == RowsOf(b, NumSeq(1, k))
SeqMax(a, b) == IF a > b THEN a ELSE b

(* ordinary least squares: the b that solves the normal equations *)
LS(y, X) ==
  LET xtx  == Tr(X) ** X
      xtxi == Inv(xtx)
      b    == Solve(xtx, Tr(X) ** y)
      yh   == X ** b
      u    == y -- yh
  IN [b |-> b, xtx |-> xtx, xtxi |-> xtxi, predy |-> yh, u |-> u, utu |-> SumSq(u),
      n |-> Rows(X), k |-> Cols(X)]

TSS(y) == SumSq(y -- Mean(y))
R2(y, u) == 1 -- SumSq(u) // TSS(y)
AR2(y, u, n, k) == 1 -- (1 -- R2(y, u)) ** Rat(n - 1, n - k)
LogLik(n, utu) == MNeg(Half ** n ** (LN(TwoPi) ++ LN(utu // n) ++ 1))
AIC(k, ll) == 2 * k -- 2 ** ll
SC(n, k, ll) == k ** LN(n) -- 2 ** ll
StdY(y) == Sqrt(TSS(y) // (Rows(y) - 1))

SE(vm) == Sqrt(DiagOf(vm))
\* coefficient / standard error for the first Rows(vm) coefficients
TStat(b, vm) == Head1(b, Rows(vm)) // SE(vm)
TTab(b, vm, df) == LET t == TStat(b, vm) IN HCat(<<t, TP(t, df)>>)
ZTab(b, vm) == LET t == TStat(b, vm) IN HCat(<<t, NormP(t)>>)

(* two stage least squares with z = regressors, h = instruments *)
IV(y, z, h) ==
  LET hthi == Inv(Tr(h) ** h)
      zth  == Tr(z) ** h
      p    == zth ** hthi                      \* z'h (h'h)^-1
      varb == Inv(p ** Tr(zth))
      b    == varb ** (p ** (Tr(h) ** y))
      yh   == z ** b
      u    == y -- yh
  IN [b |-> b, varb |-> varb, p |-> p, hthi |-> hthi, predy |-> yh, u |-> u, utu |-> SumSq(u),
      n |-> Rows(z), k |-> Cols(z)]

\* sandwich forms; S is the middle matrix h' Sigma h
WhiteMid(h, u) == LET hu == h (.) u IN Tr(hu) ** hu
HacMid(h, u, K) == LET hu == h (.) u IN Tr(hu) ** (K ** hu)

PowMul(W, x, p) == FoldLeft(LAMBDA acc, j: W ** acc, x, NumSeq(1, p))
\* columns W x, W^2 x, ..., W^p x, each block over all of x
RECURSIVE Lags(_, _, _)
Lags(W, x, p) == IF p = 1 THEN W ** x
                 ELSE LET l == W ** x IN HCat(<<l, Lags(W, l, p - 1)>>)
RECURSIVE LagBlock(_, _, _)
\* block of W^p x
LagBlock(W, x, p) == IF p = 0 THEN x ELSE W ** LagBlock(W, x, p - 1)
Ones(n) == Fill(n, 1, 1)
================================================================================
