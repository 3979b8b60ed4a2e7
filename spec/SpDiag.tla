--------------------------------- MODULE SpDiag --------------------------------
(* Tests for spatial dependence as functions of residuals, regressors and W.     *)
EXTENDS Reg
WRel(f, W) == [t |-> Trace((Tr(W) ++ W) ** W), s0 |-> SumAll(W), s1 |-> Half ** SumSq(W ++ Tr(W)), n |-> Rows(W)]
Chi(s, df) == VCat(<<s, Chi2Sf(s, df)>>)
\* f: a fit record with b, u, utu, predy, xtxi; X its regressors
DU(f, W) == (Tr(f.u) ** W ** f.u) // (f.utu // Rows(W))
DY(f, y, W) == (Tr(f.u) ** W ** y) // (f.utu // Rows(W))
TW(W) == Trace((Tr(W) ++ W) ** W)
NJ(f, X, W) == LET s2 == f.utu // Rows(W)  wxb == W ** f.predy  v == Tr(X) ** wxb
               IN (Dot(wxb, wxb) -- Tr(v) ** f.xtxi ** v ++ TW(W) ** s2) // s2
LmErr(f, W) == Chi(Sq(DU(f, W)) // TW(W), 1)
LmLag(f, y, X, W) == Chi(Sq(DY(f, y, W)) // NJ(f, X, W), 1)
RLmErr(f, y, X, W) == LET t == TW(W)  nj == NJ(f, X, W)
                      IN Chi(Sq(DU(f, W) -- (t ** DY(f, y, W)) // nj) // (t ** (1 -- t // nj)), 1)
RLmLag(f, y, X, W) == Chi(Sq(DY(f, y, W) -- DU(f, W)) // (NJ(f, X, W) -- TW(W)), 1)
Sarma(f, y, X, W) == Chi(Sq(DY(f, y, W) -- DU(f, W)) // (NJ(f, X, W) -- TW(W)) ++ Sq(DU(f, W)) // TW(W), 2)
\* Koley and Bera: x1 are the regressors whose lags are tested
LmWx(f, x1, X, W) == LET wx == W ** x1  mx == Tr(wx) ** X  s2 == f.utu // Rows(W)
                         d == Tr(wx) ** f.u
                     IN Chi((Tr(d) ** Solve(Tr(wx) ** wx -- mx ** f.xtxi ** Tr(mx), d)) // s2, Cols(x1))
LmDurbin(f, y, x1, X, W) ==
  LET s2 == f.utu // Rows(W)  wx == W ** x1  wxb == W ** f.predy
      d == VCat(<<(Tr(W ** y) ** f.u) // s2, (Tr(wx) ** f.u) // s2>>)
      j12 == HCat(<<Tr(X) ** wxb, Tr(X) ** wx>>)
      j22 == VCat(<<HCat(<<Dot(wxb, wxb) ++ TW(W) ** s2, Tr(wxb) ** wx>>), HCat(<<Tr(wx) ** wxb, Tr(wx) ** wx>>)>>)
  IN Chi(s2 ** Tr(d) ** Solve(j22 -- Tr(j12) ** f.xtxi ** j12, d), Cols(x1) + 1)
S(c) == At(c, 1, 1)
\* Moran's I of the residuals, its moments under normality
MI(u, W) == (Rows(W) // SumAll(W)) ** ((Tr(u) ** W ** u) // SumSq(u))
EMI(f, X, W) == LET n == Rows(W) IN MNeg((n // (SumAll(W) ** Rat(n - Cols(X), 1))) ** Trace(f.xtxi ** (Tr(X) ** W ** X)))
VMI(f, X, W) ==
  LET n == Rows(W)  k == Cols(X)  s0 == SumAll(W)
      U == Half ** (W ++ Tr(W))
      A == f.xtxi ** (Tr(X) ** U ** X)
      B == f.xtxi ** (Tr(X) ** U ** U ** X)
      trA == Trace(A)
      s1 == Half ** SumSq(W ++ Tr(W))
  IN (Rat(n * n, (n - k) * (n - k + 2)) // Sq(s0)) ** (s1 ++ 2 ** Trace(A ** A) -- 4 ** Trace(B) -- (2 ** Sq(trA)) // (n - k))
ZMI(f, X, W) == (MI(f.u, W) -- EMI(f, X, W)) // Sqrt(VMI(f, X, W))
\* Anselin-Kelejian with endogenous regressors z
AK(u, Z, varb, W) ==
  LET n == Rows(W)  s2 == SumSq(u) // n  a == Tr(u) ** W ** Z
      phi2 == (TW(W) ++ (4 // s2) ** (a ** varb ** Tr(a))) // (Sq(SumAll(W) // n) ** n)
  IN Chi((n ** Sq(MI(u, W))) // phi2, 1)
\* common factor hypothesis rho * beta + gamma = 0 (delta method); b = (beta, gamma, rho) and its covariance
Comfac(beta, gamma, rho, vm) ==
  LET k == Rows(beta)  g == rho ** beta ++ gamma
      G == VCat(<<rho ** Ident(k), Ident(k), Tr(beta)>>)
  IN Chi(Tr(g) ** Solve(Tr(G) ** vm ** G, g), k)
================================================================================
