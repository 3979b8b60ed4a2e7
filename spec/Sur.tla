----------------------------------- MODULE Sur ----------------------------------
(* Generalised least squares of a system of equations: Z, y sequences of matrices *)
EXTENDS SurLay, Conf, Reg
Sum(s) == FoldLeft(LAMBDA a, b: a ++ b, s[1], Tail(s))
Resid(y, Z, b) == HCat([q \in 1..Len(y) |-> y[q] -- Z[q] ** b[q]])
Pred(Z, b) == HCat([q \in 1..Len(Z) |-> Z[q] ** b[q]])
Split(b, K) == [q \in 1..Len(K) |-> RowsOf(b, [j \in 1..K[q] |-> Off(K, q) + j])]
KsOf(Z) == [q \in 1..Len(Z) |-> Cols(Z[q])]
Single(y, Z) == [q \in 1..Len(y) |-> Inv(Tr(Z[q]) ** Z[q]) ** (Tr(Z[q]) ** y[q])]
\* the step with error covariance S
GlsS(y, Z, S) ==
  LET m == Len(y)  Si == Inv(S)
      A == VCat([r \in 1..m |-> HCat([t \in 1..m |-> At(Si, r, t) ** (Tr(Z[r]) ** Z[t])])])
      c == VCat([r \in 1..m |-> Sum([t \in 1..m |-> At(Si, r, t) ** (Tr(Z[r]) ** y[t])])])
      V == Inv(A)  b == V ** c
  IN [sig |-> S, sigi |-> Si, varb |-> V, bb |-> b, b |-> Split(b, KsOf(Z))]
Gls(y, Z, E) == GlsS(y, Z, (Tr(E) ** E) // Rows(E))
CorrOf(S) == LET d == Sqrt(DiagOf(S)) IN S // (d ** Tr(d))
SlogDiag(S) == SumAll(LN(DiagOf(S)))
SurInf(b, V) == LET z == ZTab(b, V) IN HCat(<<SE(V), z>>)
Infs(b, V, K) == Split(SurInf(b, V), K)
\* Wald test that b[I[p]] = b[J[p]] for all p, c: sequence of pairs
WaldEq(b, V, c) ==
  LET I == [p \in 1..Len(c) |-> c[p][1]]  J == [p \in 1..Len(c) |-> c[p][2]]
      d == RowsOf(b, I) -- RowsOf(b, J)
      vv(a, e) == ColsOf(RowsOf(V, a), e)
      S == ((vv(I, I) -- vv(I, J)) -- vv(J, I)) ++ vv(J, J)
      w == Tr(d) ** Solve(S, d)
  IN [w |-> w, df |-> Len(c), p |-> Chi2Sf(w, Len(c))]
WaldZero(b, V, I) == LET d == RowsOf(b, I)  w == Tr(d) ** Solve(ColsOf(RowsOf(V, I), I), d) IN [w |-> w, df |-> Len(I), p |-> Chi2Sf(w, Len(I))]
Is(o, t, d) == /\ SeqLen(o) = 3 /\ CloseD(o[1], t.w, d) /\ CloseD(o[2], t.df, 12) /\ Within(o[3], t.p, Dec("0.00000001") ** (10 ** t.p ++ 1))
IsWp(o, t, d) == /\ SeqLen(o) = 2 /\ CloseD(o[1], t.w, d) /\ Within(o[2], t.p, Dec("0.00000001") ** (10 ** t.p ++ 1))
EqualKs(K) == \A q \in 1..Len(K) : K[q] = K[1]
BetweenCl(o, b, V, K) ==
  IF ~EqualKs(K) THEN << Cl("surchow", Same(o, "none")) >>
  ELSE << Cl("surchow", SeqLen(o) = K[1] /\ \A j \in 1..K[1] : Is(o[j], WaldEq(b, V, Between(K, j)), 6)) >>
\* tests by regime within equation q, with layout z
WithinCl(o, z, b, V, nr) ==
  LET T == Tested(z)  all == Flat([j \in 1..Len(T) |-> Within1(z, T[j], nr)]) IN
  << Cl("chow_regimes.joint", IsWp(o.joint, WaldEq(b, V, all), 6)),
     Cl("chow_regimes.each", SeqLen(o.regi) = Len(T) /\ \A j \in 1..Len(T) : IsWp(o.regi[j], WaldEq(b, V, Within1(z, T[j], nr)), 6)) >>
\* LM tests against spatial errors and lags in the system
LmE(m, W, E, S) ==
  LET Si == Inv(S)  g == ColSums(Si (.) (Tr(E) ** (W ** E)))
      D == (Trace(W ** W) ** Ident(m)) ++ (Trace(Tr(W) ** W) ** (Si (.) S))
      w == g ** Solve(D, Tr(g)) IN [w |-> w, df |-> m, p |-> Chi2Sf(w, m)]
LmL(W, y, X, E, yp, S, V) ==
  LET m == Len(y)  Si == Inv(S)
      g == ColSums(Si (.) (Tr(E) ** (W ** HCat(y))))
      wp == W ** yp
      I == ((Trace(W ** W) ** Ident(m)) ++ (Trace(Tr(W) ** W) ** (Si (.) S))) ++ (Si (.) (Tr(wp) ** wp))
      B == VCat([r \in 1..m |-> RowsOf(Si, <<r>>) (.) (Tr(X[r]) ** wp)])
      w == g ** Solve(I -- Tr(B) ** (V ** B), Tr(g)) IN [w |-> w, df |-> m, p |-> Chi2Sf(w, m)]
\* ---------------------------------------------------------------- data of an event
\* e.in: y x yend q sequences per equation, names, ri labs
M(e) == Len(e.cfg.kx)
Col(v, src) == ColsOf(src, <<v.i>>)
Ind(e, r) == FromSeq([i \in 1..Len(e.in.ri) |-> IF e.in.ri[i] = r THEN 1 ELSE 0])
Masked(e, v, c) == IF v.r = 0 THEN c ELSE c (.) Ind(e, v.r)
Mx(e, lay, src(_)) == HCat([j \in 1..Len(lay) |-> Masked(e, lay[j], src(lay[j]))])
Xm(e, q) == Mx(e, EqX(e.cfg.kx[q], e.cfg.nr), LAMBDA v: Col(v, e.in.x[q]))
Em(e, q) == Mx(e, EqE(e.cfg.ke[q], e.cfg.nr, e.cfg.wy), LAMBDA v: IF v.s = "w" THEN e.in.W ** e.in.y[q] ELSE Col(v, e.in.yend[q]))
Qm(e, q) == Mx(e, EqQ(e.cfg.kq[q], e.cfg.nr), LAMBDA v: Col(v, e.in.q[q]))
Zl(e, q) == EqZ(e.cfg.kx[q], e.cfg.ke[q], e.cfg.nr, e.cfg.wy)
Pre(e, v, nm) == IF v.r = 0 THEN nm ELSE e.in.labs[v.r] \o "_" \o nm
NmOf(e, v, q) == Pre(e, v, CASE v.s = "x" -> e.in.name_x[q][v.i] [] v.s = "e" -> e.in.name_yend[q][v.i]
                             [] v.s = "q" -> e.in.name_q[q][v.i] [] OTHER -> "W_" \o e.in.name_y[q])
NamesOf(e, lay, q) == [j \in 1..Len(lay) |-> NmOf(e, lay[j], q)]
AllEq(e, P(_)) == \A q \in 1..M(e) : P(q)
ChowCl(e, b, V) ==
  IF e.cfg.nr = 0 THEN <<>>
  ELSE LET K == [q \in 1..M(e) |-> Len(Zl(e, q))] IN
    Flat([q \in 1..M(e) |-> LET r == [j \in 1..K[q] |-> Off(K, q) + j] IN
          WithinCl(e.obs.chow_regimes[q], Zl(e, q), RowsOf(b, r), ColsOf(RowsOf(V, r), r), e.cfg.nr)])
\* ---------------------------------------------------------------- 3SLS
\* estimates of feasible GLS after 1, 2, ... t + 1 steps
GlsSeq(y, X, t) == FoldLeft(LAMBDA a, j: Append(a, Gls(y, X, Resid(y, X, a[Len(a)].b))),
                            <<Gls(y, X, Resid(y, X, Single(y, X)))>>, Nums(t))
Proj(h, v) == h ** Solve(Tr(h) ** h, Tr(h) ** v)
SlsFit(e, Hq(_)) ==
  LET m == M(e)  y == e.in.y  X == [q \in 1..m |-> Xm(e, q)]  En == [q \in 1..m |-> Em(e, q)]
      Z == [q \in 1..m |-> HCat(<<X[q], En[q]>>)] \o <<>>
      Zh == [q \in 1..m |-> HCat(<<X[q], Proj(HCat(<<X[q], Hq(q)>>), En[q])>>)] \o <<>>
      b2 == Single(y, Zh) \o <<>>  E2 == Resid(y, Z, b2)  f == Gls(y, Zh, E2) IN
  [b2 |-> b2, E2 |-> E2, f |-> f, Z |-> Z]
SlsCl(e, g, hnames(_)) ==
  LET o == e.obs  y == e.in.y  Z == g.Z  f == g.f  K == KsOf(Z) IN
    << Cl("names", AllEq(e, LAMBDA q: /\ Same(o.name_bigX[q], NamesOf(e, EqX(e.cfg.kx[q], e.cfg.nr), q))
                                      /\ Same(o.name_bigyend[q], NamesOf(e, EqE(e.cfg.ke[q], e.cfg.nr, e.cfg.wy), q))
                                      /\ Same(o.name_bigq[q], hnames(q)) /\ Same(o.name_bigy[q], e.in.name_y[q]))),
       Cl("b2SLS", AllEq(e, LAMBDA q: CloseD(o.b2SLS[q], g.b2[q], 6))), Cl("tslsE", CloseD(o.tslsE, g.E2, 6)),
       Cl("b3SLS", AllEq(e, LAMBDA q: CloseD(o.b3SLS[q], f.b[q], 6))),
       Cl("varb", CloseVm(o.varb, f.varb, 6)), Cl("sig", CloseD(o.sig, f.sig, 6)), Cl("corr", CloseD(o.corr, CorrOf(f.sig), 6)),
       Cl("bigE", CloseD(o.bigE, Resid(y, Z, f.b), 6)),
       Cl("tsls_inf", AllEq(e, LAMBDA q: CloseD(o.tsls_inf[q], Infs(f.bb, f.varb, K)[q], 5))) >>
================================================================================
