---------------------------------- MODULE Diag ----------------------------------
(* Non-spatial diagnostics as functions of residuals and regressors.              *)
EXTENDS Reg
\* first occurrence of every distinct column
Distinct(M) == LET eq(a, b) == CloseD(ColsOf(M, <<a>>), ColsOf(M, <<b>>), 13)
               IN SelectSeq(NumSeq(1, Cols(M)), LAMBDA q: \A p \in 1..(q - 1) : ~eq(p, q))
Dedup(M) == ColsOf(M, Distinct(M))
ChiRec(v, df) == VCat(<<v, FromSeq(<<df>>), Chi2Sf(v, df)>>)
JB(u) == LET n == Rows(u)  m2 == SumSq(u) // n  u2 == u (.) u
             s2 == Sq(SumAll(u2 (.) u) // n) // (m2 ** m2 ** m2)  k == (SumSq(u2) // n) // Sq(m2)
         IN ChiRec(n ** (s2 // 6 ++ Sq(k -- 3) // 24), 2)
Quad(z, g) == LET v == Tr(z) ** g IN Tr(v) ** Solve(Tr(z) ** z, v)
BP(u, z) == ChiRec(Half ** Quad(z, (u (.) u) // (SumSq(u) // Rows(u)) -- 1), Cols(z) - 1)
KB(u, z) == LET g == u (.) u -- SumSq(u) // Rows(u) IN ChiRec(Quad(z, g) // (SumSq(g) // Rows(u)), Cols(z) - 1)
Pairs(k) == FoldLeft(LAMBDA acc, i: acc \o [j \in 1..(k - i + 1) |-> <<i, i + j - 1>>], <<>>, NumSeq(1, k))
WhiteA(X0) == LET ps == Pairs(Cols(X0))
                  M == HCat(<<Ones(Rows(X0))>> \o [q \in 1..Len(ps) |-> ColsOf(X0, <<ps[q][1]>>) (.) ColsOf(X0, <<ps[q][2]>>)])
                  A == Dedup(M)
              IN ColsOf(A, SelectSeq(NumSeq(1, Cols(A)), LAMBDA q: q = 1 \/ Lt(MinAll(ColsOf(A, <<q>>)), MaxAll(ColsOf(A, <<q>>)))))
WhiteT(u, X0) == LET A == WhiteA(X0)  f == LS(u (.) u, A) IN ChiRec(Rows(u) ** R2(u (.) u, f.u), Cols(A) - 1)
CondIx(M) == LET d == Sqrt(DiagOf(M))  e == EigSym(M // (d ** Tr(d))) IN Sqrt(MaxAll(e) // MinAll(e))
VIF(X0, j) == LET y == ColsOf(X0, <<j>>)  o == SelectSeq(NumSeq(1, Cols(X0)), LAMBDA q: q # j)
                  f == LS(y, ColsOf(X0, o))  tol == f.utu // TSS(y) IN HCat(<<1 // tol, tol>>)
FRec(U, r, f) == LET F == (U // r) // (f.utu // (f.n - f.k)) IN VCat(<<F, FSf(F, r, f.n - f.k)>>)
================================================================================
