---------------------------------- MODULE C20 -----------------------------------
(* Recorded panel fits: pooled, within, random effects, GM error, LM tests.        *)
EXTENDS Panel, GMM
\* ------------------------------------------------- Baltagi-Song-Koh tests
TrB(W) == SumSq(W) ++ SumAll(W (.) Tr(W))
Up(x) == NormSf(x)
Bsk(e, y, X, which) ==
  LET W == e.in.W  n == Nn(e)  T == Tt(e)
      u == LS(y, X).u  s2 == SumSq(u)
      G == (Sq(T) ** SumSq(Means(e, u))) // s2 -- 1
      lm1 == Sqrt(Rat(n * T, 2 * (T - 1))) ** G
      lm2 == (n ** Sqrt(T // TrB(W))) ** (SumAll(u (.) WN(e, u)) // s2)
      p1 == Lt(0, lm1)  p2 == Lt(0, lm2)
      j == (IF p1 THEN Sq(lm1) ELSE Rat(0, 1)) ++ (IF p2 THEN Sq(lm2) ELSE Rat(0, 1))
  IN CASE which = "LM1" -> <<"LM Marginal RE (LM1)", lm1, Up(lm1), 1>>
       [] which = "LM2" -> <<"LM Marginal Spatial (LM2)", lm2, Up(lm2), 1>>
       [] which = "LMJ" -> <<"LM Joint (LMJ)", j, IF p1 /\ p2 THEN Half ** Chi2Sf(j, 1) ++ Rat(1, 4) ** Chi2Sf(j, 2)
                                                  ELSE IF p1 \/ p2 THEN Half ** Chi2Sf(j, 1) ELSE Rat(1, 1), 2>>
LmcSpatial(e, u) ==
  LET W == e.in.W  n == Nn(e)  T == Tt(e)
      m == Between(e, u)  d == u -- m
      s1 == SumSq(m) // n  sv == SumSq(d) // (n * (T - 1))
      q(x) == SumAll(x (.) WN(e, x))
      D == (sv // Sq(s1)) ** q(m) ++ q(d) // sv
      v == D // Sqrt(((T - 1) ++ Sq(sv // s1)) ** TrB(W))
  IN <<"LM Conditional Spatial", v, Up(v), 1>>
LmcRe(e, u, lam) ==
  LET W == e.in.W  n == Nn(e)  T == Tt(e)
      B == Ident(n) -- lam ** W  BB == Tr(B) ** B
      v == Kron(Ident(T), B) ** u  s2 == SumSq(v) // (n * T)
      M == (Tr(W) ** B) ++ (Tr(B) ** W)  C == M ** Inv(BB)
      h == Trace(BB)  d == Trace(M)  ee == SumSq(BB)  g == Trace(C)  c == SumAll(C (.) Tr(C))
      um == Means(e, u)
      D == (Sq(T) ** SumSq(BB ** um)) // (2 ** Sq(s2)) -- (T ** h) // (2 ** s2)
      num == (D ** s2) ** Sqrt(Rat(2, T) ** ((n ** c) -- Sq(g)))
      den == Sqrt(((((T * n) ** (ee ** c)) -- n ** Sq(d)) -- (T ** Sq(g) ** ee)) ++ (2 ** (g ** h ** d)) -- (Sq(h) ** c))
      x == num // den
  IN <<"LM Conditional RE", x, Up(x), 1>>
BskIs(o, l) == << Cl("bsk.names", Same(o.name, [j \in 1..Len(l) |-> l[j][1]])), Cl("bsk.df", Same(o.df, [j \in 1..Len(l) |-> l[j][4]])),
  Cl("bsk.value", CloseD(o.value, FromSeq([j \in 1..Len(l) |-> l[j][2]]), 7)),
  Cl("bsk.prob", CloseD(o.prob, FromSeq([j \in 1..Len(l) |-> l[j][3]]), 6)) >>
HasT(e, x) == \E j \in 1..SeqLen(e.in.bsk) : e.in.bsk[j] = x
BskSel(e, y, X, ss) == LET s == SelectSeq(ss, LAMBDA x: HasT(e, x)) IN [j \in 1..Len(s) |-> Bsk(e, y, X, s[j])] \o <<>>
\* ------------------------------------------------------------------ pooled
Pooled(e) ==
  LET X == Design(e, TRUE)  o == e.obs  f == LS(e.in.y, X)  s2 == f.utu // (f.n - f.k)
      vm == IF e.cfg.opt = 1 THEN (Rat(f.n, f.n - f.k) ** f.xtxi) ** (WhiteMid(X, f.u) ** f.xtxi) ELSE s2 ** f.xtxi
      l == BskSel(e, e.in.y, X, <<"LM1", "LM2", "LMJ">>)
      cs == IF HasT(e, "LMC_spatial") THEN <<LmcSpatial(e, e.in.reu)>> ELSE <<>>
      cr == IF HasT(e, "LMC_RE") THEN <<LmcRe(e, e.in.semu, e.in.semlam)>> ELSE <<>>
  IN << Cl("betas", CloseD(o.betas, f.b, 9)), Cl("u", CloseD(o.u, f.u, 8)), Cl("predy", CloseD(o.predy, f.predy, 8)),
        Cl("sig2", CloseD(o.sig2, s2, 9)), Cl("vm", CloseVm(o.vm, vm, 8)), Cl("n", CloseD(o.n, f.n, 12)), Cl("t", CloseD(o.t, Tt(e), 12)) >>
     \o Table(o.table, Labels(e, TRUE), f.b, vm, TTab(f.b, vm, f.n - f.k), 8)
     \o (IF e.in.bsk[1] = "none" THEN << Cl("no-bsk", Same(o.bsk, "absent")) >> ELSE BskIs(o.bsk, l \o cs \o cr))
\* ------------------------------------------------------------------ within
Within1(e) ==
  LET X == Design(e, FALSE)  y == e.in.y  o == e.obs  n == Nn(e)  T == Tt(e)
      f == LS(Demean(e, y, 0), Demean(e, X, 0))
      s2 == f.utu // (n * T - n)  vm == s2 ** f.xtxi  u == y -- X ** f.b
      fe == Means(e, u)
  IN << Cl("betas", CloseD(o.betas, f.b, 8)), Cl("u", CloseD(o.u, u, 8)), Cl("predy", CloseD(o.predy, X ** f.b, 8)),
        Cl("sig2", CloseD(o.sig2, s2, 8)), Cl("vm", CloseVm(o.vm, vm, 7)), Cl("fixed_effects", CloseD(o.fixed_effects, fe, 8)),
        Cl("mu_i", CloseD(o.mu_i, fe, 8)), Cl("mean_mu_i", CloseD(o.mean_mu_i, Mean(fe), 7)), Cl("n", CloseD(o.n, n * T, 12)),
        Cl("xtxi", CloseVm(o.xtxi, Inv(Tr(X) ** X), 7)) >>
     \o Table(o.table, Labels(e, FALSE), f.b, vm, ZTab(f.b, vm), 7)
\* ---------------------------------------------------------- random effects
RandomEff(e) ==
  LET X == Design(e, TRUE)  y == e.in.y  o == e.obs  n == Nn(e)  T == Tt(e)  k == Cols(X)
      v == NumSeq(2, k)
      w == LS(Demean(e, y, 0), ColsOf(Demean(e, X, 0), v))
      se2 == w.utu // (n * T - n - (k - 1))
      b == LS(Means(e, y), Means(e, X))
      smu0 == b.utu // (n - k) -- se2 // T
      neg == Lt(smu0, 0)
      smu == IF neg THEN Rat(0, 1) ELSE smu0
      th == 1 -- Sqrt(se2 // (se2 ++ T ** smu))
      g == LS(Demean(e, y, 1 -- th), Demean(e, X, 1 -- th))
      s2 == g.utu // (n * T)  vm == s2 ** g.xtxi
      d == w.b -- RowsOf(g.b, v)
      H == Tr(d) ** Solve(se2 ** w.xtxi -- RowsOf(ColsOf(vm, v), v), d)
      u == y -- X ** g.b
  IN << Cl("betas", CloseD(o.betas, g.b, 7)), Cl("u", CloseD(o.u, u, 7)), Cl("predy", CloseD(o.predy, X ** g.b, 7)),
        Cl("sigma2_epsilon", CloseD(o.sigma2_epsilon, se2, 8)), Cl("sigma2_mu", CloseD(o.sigma2_mu, smu, 6)), Cl("theta", CloseD(o.theta, th, 6)),
        Cl("sig2", CloseD(o.sig2, s2, 7)), Cl("vm", CloseVm(o.vm, vm, 6)), Cl("warning", o.negwarn = (IF neg THEN 1 ELSE 0)),
        Cl("hausman_df", CloseD(o.hausman_df, k - 1, 12)),
        Cl("hausman_stat", CloseD(o.hausman_stat, H, 4)), Cl("hausman_p", CloseD(o.hausman_p, IF Lt(0, H) THEN Chi2Sf(H, k - 1) ELSE Rat(1, 1), 4)) >>
     \o Table(o.table, Labels(e, TRUE), g.b, vm, ZTab(g.b, vm), 6)
     \o (IF e.in.bsk[1] = "none" THEN << Cl("no-bsk", Same(o.bsk, "absent")) >> ELSE BskIs(o.bsk, <<LmcSpatial(e, u)>>))
\* --------------------------------------------------------------- GM pooled
\* the cross-sectional estimator on the stacked panel with block weights (recorded as ref)
GmPooled(e) ==
  LET o == e.obs  r == e.ref  k == Rows(r.vm) IN
  << Cl("betas", CloseD(o.betas, r.betas, 6)), Cl("u", CloseD(o.u, r.u, 6)), Cl("predy", CloseD(o.predy, r.predy, 6)), Cl("vm", CloseVm(o.vm, r.vm, 5)),
     Cl("e_filtered", CloseD(o.e_filtered, r.e_filtered, 6)),
     Cl("definition", CloseD(e.in.y -- Design(e, TRUE) ** RowsOf(o.betas, NumSeq(1, k - 1)), o.u, 8)),
     Cl("filter", CloseD(o.e_filtered, o.u -- At(o.betas, k, 1) ** WN(e, o.u), 8)) >>
  \o Table(o.table, Labels(e, TRUE) \o <<"lambda">>, o.betas, o.vm, ZTab(o.betas, o.vm), 8)
  \o (IF e.in.bsk[1] = "none" THEN << Cl("no-bsk", Same(o.bsk, "absent")) >> ELSE BskIs(o.bsk, <<LmcRe(e, o.u, At(o.betas, k, 1))>>))
\* --------------------------------------------- Kapoor, Kelejian and Prucha
Row3(s) == Tr(FromSeq(s))
KkpM(e, u, i) ==
  LET ub == WN(e, u)  ubb == WN(e, ub)  Q(m) == IF i = 0 THEN Demean(e, m, 0) ELSE Between(e, m)
      d(a, b) == SumAll(a (.) Q(b))  n == Nn(e)  T == Tt(e)  c == IF i = 0 THEN n * (T - 1) ELSE n
      tw == SumSq(e.in.W)
      G == << <<2 ** d(u, ub), MNeg(d(ub, ub)), c>>, <<2 ** d(ubb, ub), MNeg(d(ubb, ubb)), (IF i = 0 THEN T - 1 ELSE 1) ** tw>>,
              <<d(u, ubb) ++ d(ub, ub), MNeg(d(ub, ubb)), 0>> >>
      z(r) == IF i = 0 THEN r ELSE <<r[1], r[2], 0, r[3]>>
  IN [G |-> VCat([j \in 1..3 |-> Row3(z(G[j]))]) // c, g |-> FromSeq(<<d(u, u), d(ub, ub), d(u, ub)>>) // c]
Tau(W) == LET n == Rows(W)  ww == Tr(W) ** W  s == W ++ Tr(W)  tr == SumSq(W)  t12 == (2 ** tr) // n  t23 == SumAll(ww (.) s) IN
  VCat(<<Row3(<<2 * n, t12, 0>>), Row3(<<t12, SumSq(ww), t23>>), Row3(<<0, t23, SumAll(W (.) Tr(W)) ++ Trace(ww)>>)>>) // n
\* the weighted six moments at (l, s_v, s_1), and with the variances profiled out
Res6(m, l, a, b) == m.g -- m.G ** FromSeq(<<l, Sq(l), a, b>>)
Obj6(m, Vi, l, a, b) == LET r == Res6(m, l, a, b) IN Tr(r) ** (Vi ** r)
Prof6(m, Vi, l) ==
  LET a == m.g -- ColsOf(m.G, <<1, 2>>) ** FromSeq(<<l, Sq(l)>>)  C == ColsOf(m.G, <<3, 4>>)
      s == Solve(Tr(C) ** (Vi ** C), Tr(C) ** (Vi ** a))  r == a -- C ** s IN
  [s |-> s, v |-> Tr(r) ** (Vi ** r)]
First(m, l) == LET a == m.g -- ColsOf(m.G, <<1, 2>>) ** FromSeq(<<l, Sq(l)>>)  c == ColsOf(m.G, <<3>>) IN SumAll(a (.) c) // SumSq(c)
Weights(e, u, l1, sv) ==
  LET ul == u -- l1 ** WN(e, u)  s1 == SumSq(Between(e, ul)) // Nn(e)
      D == Diag(FromSeq(<<Sq(sv) // (Tt(e) - 1), Sq(s1)>>)) IN
  [Vi |-> Inv(Kron(D, IF e.cfg.opt = 1 THEN Tau(e.in.W) ELSE Ident(3))), s1 |-> s1]
\* (l, a, b) is a minimiser of the weighted moments, up to the precision of the numerical search
Min6(e, m, Vi, l, a, b, start) ==
  LET v == Obj6(m, Vi, l, a, b)
      sc == MaxAll(MAbs(Vi)) ** Sq(Greater(MaxAll(MAbs(m.G)), MaxAll(MAbs(m.g))))
      slack == Dec("0.0000001") ** sc ++ Dec("0.02") ** v
      better(x) == Lt(Prof6(m, Vi, x).v ++ slack, v)
      h == Dec("0.02")
  IN /\ Le(MAbs(l), Bound)
     /\ ~better(l)
     /\ Le(l ++ h, Bound) => ~better(l ++ h)
     /\ Le(MNeg(Bound), l -- h) => ~better(l -- h)
     /\ Le(v, Obj6(m, Vi, start[1], start[2], start[3]) ++ slack)
Kkp(e) ==
  LET X == Design(e, TRUE)  y == e.in.y  o == e.obs  n == Nn(e)  T == Tt(e)  k == Cols(X)
      u == LS(y, X).u
      m0 == KkpM(e, u, 0)  m1 == KkpM(e, u, 1)
      m == [G |-> VCat(<<HCat(<<m0.G, Fill(3, 1, 0)>>), m1.G>>), g |-> VCat(<<m0.g, m1.g>>)]
      l == At(o.betas, k + 1, 1)  sv == At(o.betas, k + 2, 1)  s1 == At(o.betas, k + 3, 1)
      cand == Minima(m0, "none")
      fits(l1) == LET a == First(m0, l1)  w == Weights(e, u, l1, a) IN Min6(e, m, w.Vi, l, sv, s1, <<l1, a, w.s1>>)
      th == 1 -- Sqrt(sv // s1)
      F(M) == Demean(e, M -- l ** WN(e, M), 1 -- th)
      f == LS(F(y), F(X))  s2 == f.utu // (f.n - f.k)  vm == s2 ** f.xtxi
      bb == VCat(<<f.b, l, sv, s1>>)  uu == y -- X ** f.b
  IN << Cl("moments-minimised", \E j \in 1..Len(cand) : fits(cand[j])),
        Cl("betas", CloseD(o.betas, bb, 8)), Cl("predy", CloseD(o.predy, X ** f.b, 8)), Cl("u", CloseD(o.u, uu, 8)),
        Cl("vm", CloseVm(o.vm, vm, 7)), Cl("e_filtered", CloseD(o.e_filtered, uu -- l ** WN(e, uu), 8)), Cl("t", CloseD(o.t, T, 12)) >>
     \o (IF e.cfg.est = "GM_KKP" THEN << Cl("names", Same(o.name_x, Labels(e, TRUE) \o <<"lambda", " sigma2_v", "sigma2_1">>)) >>
         ELSE TableK(o.table, Labels(e, TRUE) \o <<"lambda", " sigma2_v", "sigma2_1">>, bb, vm, ZTab(bb, vm), 7))
\* ------------------------------------------------------- LM tests of panels
LmTests(e) ==
  LET X == HCat(<<Fill(Rows(e.in.x), 1, 1), e.in.x>>)  y == e.in.y  W == e.in.W  o == e.obs  T == Tt(e)
      f == LS(y, X)  s2 == f.utu // (f.n - f.k)  tr == TrB(W)
      wxb == WN(e, f.predy)  mw == LS(wxb, X).utu
      uwy == SumAll(f.u (.) WN(e, y)) // s2  uwu == SumAll(f.u (.) WN(e, f.u)) // s2
      J == mw // s2 ++ T ** tr
      JC == mw // s2 ++ Sq(tr)
      is(x, v) == CloseD(x, FromSeq(<<v, Chi1(v)>>), 6)
  IN << Cl("LMlag", is(o.LMlag, Sq(uwy) // J)), Cl("LMlag-as-coded", is(o.LMlag, Sq(uwy) // JC) \/ is(o.LMlag, Sq(uwy) // J)),
        Cl("LMerror", is(o.LMerror, Sq(uwu) // (T ** tr))),
        Cl("rLMlag", is(o.rLMlag, Sq(uwy -- uwu) // (J -- T ** tr))),
        Cl("rLMerror", is(o.rLMerror, Sq(uwu -- ((T ** tr) // J) ** uwy) // ((T ** tr) ** (1 -- (T ** tr) // J)))) >>
Stage(s, e) == CASE s = 1 ->
  IF Raised(e) THEN << Cl("no-exception", FALSE) >> ELSE
  CASE e.cfg.est = "PooledOLS" -> Pooled(e)
    [] e.cfg.est = "PanelFE" -> Within1(e)
    [] e.cfg.est = "PanelRE" -> RandomEff(e)
    [] e.cfg.est = "GM_ErrorPooled" -> GmPooled(e)
    [] e.cfg.est \in {"GM_ErrorRE", "GM_KKP"} -> Kkp(e)
    [] OTHER -> LmTests(e)
  [] s = 2 -> IF Raised(e) \/ e.cfg.est \in {"LMtests", "GM_KKP"} THEN <<>> ELSE LayoutCl(e)
TNext == Replay(Stage, 2)
================================================================================
