----------------------------------- MODULE ML -----------------------------------
(* Maximum likelihood spatial lag and error models: the concentrated likelihoods  *)
(* and everything that follows from the parameter that maximises them.            *)
EXTENDS Conf, Reg
\* ------------------------------------------------------------ a maximiser
\* f = -log likelihood on (-1, 1); r is a minimiser if the Newton step at r is
\* negligible at a point of positive curvature, or f falls towards the bound
Hd == Rat(1, 10000)
Step(F(_), r) == LET a == F(r -- Hd)  b == F(r)  c == F(r ++ Hd)
                 IN [g |-> (c -- a) // (2 ** Hd), h |-> (c ++ a -- 2 ** b) // (Hd ** Hd), a |-> a, b |-> b, c |-> c]
Minimiser(F(_), r, tol) ==
  IF Lt(Dec("0.9998"), MAbs(r))
  THEN Le(F(r), F(r ** Dec("0.9999")) ++ Dec("0.000001"))
  ELSE LET s == Step(F, r) IN Lt(0, s.h) /\ Le(MAbs(s.g), s.h ** tol)
Tol == Dec("0.00003")
\* ------------------------------------------------------------------ lag
LagParts(y, X, W) == LET f0 == LS(y, X)  f1 == LS(W ** y, X) IN [b0 |-> f0.b, b1 |-> f1.b, e0 |-> f0.u, e1 |-> f1.u]
Jac(W, r) == LogDet(Ident(Rows(W)) -- r ** W)
LagNll(p, W, r) == LET e == p.e0 -- r ** p.e1  n == Rows(W) IN Rat(n, 2) ** LN(SumSq(e) // n) -- Jac(W, r)
FullLl(nll, n) == MNeg(nll) -- Rat(n, 2) ** LN(TwoPi) -- Rat(n, 2)
Traces(W, r) == LET wa == W ** Inv(Ident(Rows(W)) -- r ** W)
                IN [t1 |-> Trace(wa), t2 |-> SumAll(wa (.) Tr(wa)), t3 |-> SumSq(wa)]
\* the matrix that is symmetric and similar to a row standardised binary W
Symm(W) == LET c == RowSums(MSign(W))  d == Sqrt(c ++ (1 -- MSign(c))) IN (d ** Tr(1 // d)) (.) W
LagInfo(X, W, r, pe, s2, t) ==
  LET n == Rows(W)  k == Cols(X)  wp == W ** pe IN
  VCat(<<HCat(<<(Tr(X) ** X) // s2, (Tr(X) ** wp) // s2, Fill(k, 1, 0)>>),
         HCat(<<(Tr(wp) ** X) // s2, t.t2 ++ t.t3 ++ (Tr(wp) ** wp) // s2, t.t1 // s2>>),
         HCat(<<Fill(1, k, 0), t.t1 // s2, n // (2 ** Sq(s2))>>)>>)
LagFit(y, X, W, r, p) ==
  LET b == p.b0 -- r ** p.b1  u == p.e0 -- r ** p.e1  n == Rows(W)
      pe == Solve(Ident(n) -- r ** W, X ** b)
  IN [b |-> VCat(<<b, r>>), u |-> u, predy |-> y -- u, pe |-> pe, ee |-> y -- pe, s2 |-> SumSq(u) // n,
      ll |-> FullLl(LagNll(p, W, r), n), n |-> n, k |-> Cols(X) + 1]
\* ---------------------------------------------------------------- error
Filt(M, W, l) == M -- l ** (W ** M)
\* WX: spatial lag of the regressors (models with regimes interact it with the regimes)
ErrNllL(y, X, WX, W, l) == LET f == LS(Filt(y, W, l), X -- l ** WX)  n == Rows(W)
                           IN Rat(n, 2) ** LN(f.utu // n) -- Jac(W, l)
ErrNll(y, X, W, l) == ErrNllL(y, X, W ** X, W, l)
ErrFitL(y, X, WX, W, l) ==
  LET f == LS(Filt(y, W, l), X -- l ** WX)  n == Rows(W)  u == y -- X ** f.b  ef == Filt(u, W, l)
  IN [b |-> VCat(<<f.b, l>>), u |-> u, predy |-> X ** f.b, ef |-> ef, s2 |-> SumSq(ef) // n,
      varb |-> (SumSq(ef) // n) ** f.xtxi, ll |-> FullLl(ErrNllL(y, X, WX, W, l), n), n |-> n, k |-> Cols(X)]
ErrFit(y, X, W, l) == ErrFitL(y, X, W ** X, W, l)
ErrInfo(n, s2, t) == VCat(<<HCat(<<t.t2 ++ t.t3, t.t1 // s2>>), HCat(<<t.t1 // s2, n // (2 ** Sq(s2))>>)>>)
ErrVm(varb, vm1) == LET k == Rows(varb)
                    IN VCat(<<HCat(<<varb, Fill(k, 1, 0)>>), HCat(<<Fill(1, k, 0), At(vm1, 1, 1)>>)>>)
================================================================================
