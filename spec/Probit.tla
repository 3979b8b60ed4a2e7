--------------------------------- MODULE Probit ---------------------------------
(* The probit likelihood of a binary y (n x 1) given X, its first and second       *)
(* derivatives, Newton's iteration for it, and what is reported of the maximum.    *)
EXTENDS Reg
Phi(a) == MNormCdf(a)
PdfN(a) == MNormPdf(a)
Sgn(y) == 2 ** y -- 1
LL(y, X, b) == SumAll(LN(Phi(Sgn(y) (.) (X ** b))))
Mills(y, X, b) == LET q == Sgn(y)  v == q (.) (X ** b) IN q (.) (PdfN(v) // Phi(v))
Score(y, X, b) == Tr(X) ** Mills(y, X, b)
\* minus the Hessian
Info(y, X, b) == LET l == Mills(y, X, b) IN Tr(X) ** (X (.) (l (.) (l ++ X ** b)))
Decrement(y, X, b) == LET g == Score(y, X, b) IN Tr(g) ** Solve(Info(y, X, b), g)
Tol == Dec("0.0001")
\* Newton's iteration: at most m steps, until the decrement of the point just left is small
RECURSIVE Newton(_, _, _, _, _)
Newton(y, X, b, it, m) ==
  LET g == Score(y, X, b)  d == Solve(Info(y, X, b), g)  nb == b ++ d  small == Lt(Tr(g) ** d, Tol) IN
  IF small \/ it + 1 = m THEN [b |-> nb, steps |-> it + 1] ELSE Newton(y, X, nb, it + 1, m)
Start(y, X) == Solve(Tr(X) ** X, Tr(X) ** y)
\* what the coefficients imply
Of(y, X, b) ==
  LET xb == X ** b  p == Phi(xb)  f == PdfN(xb)  un == y -- p IN
  [xb |-> xb, p |-> p, f |-> f, un |-> un, ug |-> f (.) (un // (p (.) (1 -- p))), pp |-> p (.) (1 -- p),
   bin |-> Half ** (MSign(p -- Half) ++ 1), vm |-> Inv(Info(y, X, b)), ll |-> LL(y, X, b)]
L0(y) == LET n == Rows(y)  P == Mean(y) IN n ** (P ** LN(P) ++ (1 -- P) ** LN(1 -- P))
\* marginal effects: scale, slopes of the variables and their covariance (delta method at the means)
Ape(X, b, f, vm, atmean) ==
  LET k == Rows(b)  xm == Tr(ColSums(X)) // Rows(X)  xmb == Tr(xm) ** b  q == NumSeq(2, k)
      sc == IF atmean THEN PdfN(xmb) ELSE Mean(f)
      J == Ident(k) -- xmb ** (b ** Tr(xm))
      V == Sq(sc) ** ((J ** vm) ** Tr(J))
  IN [scale |-> sc, slopes |-> sc ** RowsOf(b, q), vm |-> RowsOf(ColsOf(V, q), q)]
\* tests against spatial error dependence (Pinkse; Kelejian and Prucha; Pinkse and Slade)
Pinkse(W, r) == LET n == Rows(W)  s2 == SumAll((r.f (.) r.f) // r.pp) // n IN
  Sq(Tr(r.ug) ** (W ** r.ug)) // (Sq(s2) ** (SumAll(W (.) Tr(W)) ++ SumAll(W (.) W)))
MoranKP(W, u, s2) == LET WE == W ** Diag(s2) IN (Tr(u) ** (W ** u)) // Sqrt(Trace(WE ** WE) ++ Trace((Tr(W) ** Diag(s2)) ** WE))
PinkseSlade(W, r) == LET v == r.un // Sqrt(r.pp) IN Sq(Tr(v) ** (W ** v)) // (SumAll(W (.) Tr(W)) ++ SumAll(W (.) W))
================================================================================
