---------------------------------- MODULE C19 ----------------------------------
(* Recorded spatial lag and spatial error systems.                                *)
EXTENDS Sur, SurLag, GMM
ML1 == INSTANCE ML
\* ------------------------------------------------------------------- lag
RECURSIVE WPow(_, _, _)
WPow(W, x, p) == IF p = 0 THEN x ELSE W ** WPow(W, x, p - 1)
InstOf(e, q) == Insts(e.cfg.kx[q], e.cfg.kq[q], e.cfg.nr, e.cfg.w, e.cfg.lagq)
InstCol(e, q, h) == WPow(e.in.W, Masked(e, h.v, Col(h.v, IF h.v.s = "x" THEN e.in.x[q] ELSE e.in.q[q])), h.p)
InstM(e, q) == LET l == InstOf(e, q) IN HCat([j \in 1..Len(l) |-> InstCol(e, q, l[j])])
InstNm(e, q) == LET l == InstOf(e, q) IN
  [j \in 1..Len(l) |-> (CASE l[j].p = 0 -> "" [] l[j].p = 1 -> "W_" [] l[j].p = 2 -> "WW_" [] OTHER -> "WWW_") \o NmOf(e, l[j].v, q)]
LagStage(e, s) ==
  LET g == SlsFit(e, LAMBDA q: InstM(e, q))  K == KsOf(g.Z)  f == g.f IN
  CASE s = 1 -> SlsCl(e, g, LAMBDA q: InstNm(e, q))
    [] s = 2 -> BetweenCl(e.obs.surchow, f.bb, f.varb, K) \o ChowCl(e, f.bb, f.varb)
      \o (CASE e.cfg.spat = 0 -> << Cl("joinrho-absent", Same(e.obs.joinrho, "none")) >>
            [] e.cfg.wy = "by" -> <<>>
            [] OTHER -> << Cl("joinrho", Is(e.obs.joinrho, WaldZero(f.bb, f.varb, [q \in 1..M(e) |-> Off(K, q + 1)]), 6)) >>)
    [] OTHER -> <<>>
\* ----------------------------------------------------------------- error
FiltAll(W, lam, y) == [q \in 1..Len(y) |-> Filt(W, At(lam, q, 1), y[q])] \o <<>>
FiltE(W, lam, E) == HCat([q \in 1..Cols(E) |-> Filt(W, At(lam, q, 1), ColsOf(E, <<q>>))])
Fit0(e) == [y |-> e.in.y, X |-> [q \in 1..M(e) |-> Xm(e, q)] \o <<>>]
NameCl(e) == << Cl("names", AllEq(e, LAMBDA q: Same(e.obs.name_bigX[q], NamesOf(e, EqX(e.cfg.kx[q], e.cfg.nr), q)) /\ Same(e.obs.name_bigy[q], e.in.name_y[q]))) >>
GmStage(e, s) ==
  LET o == e.obs  d == Fit0(e)  W == e.in.W  K == KsOf(d.X)  lam == o.lamsur
      E0 == Resid(d.y, d.X, Single(d.y, d.X))
      ys == FiltAll(W, lam, d.y)  Xs == FiltAll(W, lam, d.X)
      f == Gls(ys, Xs, FiltE(W, lam, E0)) IN
  CASE s = 1 -> NameCl(e) \o
    << Cl("lambda-minimises-moments", AllEq(e, LAMBDA q: IsMin(Kp98(W, ColsOf(E0, <<q>>)), "none", At(lam, q, 1)))),
       Cl("bSUR", AllEq(e, LAMBDA q: CloseD(o.bSUR[q], f.b[q], 6))),
       Cl("varb", CloseVm(o.varb, f.varb, 6)), Cl("sig", CloseD(o.sig, f.sig, 7)), Cl("corr", CloseD(o.corr, CorrOf(f.sig), 7)),
       Cl("bigE", CloseD(o.bigE, Resid(d.y, d.X, f.b), 6)),
       Cl("sur_inf", AllEq(e, LAMBDA q: CloseD(o.sur_inf[q], Infs(f.bb, f.varb, K)[q], 5))),
       Cl("n", CloseD(o.n, Rows(d.y[1]), 12)) >>
    [] s = 2 -> BetweenCl(o.surchow, f.bb, f.varb, K) \o ChowCl(e, f.bb, f.varb)
    [] OTHER -> <<>>
\* -------------------------------------------------------------- ML error
Clik(W, E, lam) == LET Es == FiltE(W, lam, E)  n == Rows(E) IN
  MNeg(Rat(n, 2) ** LogDet((Tr(Es) ** Es) // n)) ++ SumAll(FromSeq([q \in 1..Cols(E) |-> LogDet(Ident(n) -- At(lam, q, 1) ** W)]))
SetAt(lam, q, v) == FromSeq([j \in 1..Rows(lam) |-> IF j = q THEN v ELSE At(lam, j, 1)])
Vech(m) == Flat([i \in 1..m |-> [j \in 1..(m - i + 1) |-> <<i, i + j - 1>>]])
\* information of (lambda, vech Sigma)
InfoL(W, lam, S) ==
  LET m == Rows(lam)  n == Rows(W)  Si == Inv(S)  V == Vech(m)  P == Len(V)
      D == [q \in 1..m |-> W ** Inv(Ident(n) -- At(lam, q, 1) ** W)] \o <<>>
      ll == [q \in 1..m |-> [r \in 1..m |->
               ((At(Si, q, r) ** At(S, q, r)) ** SumAll(D[q] (.) D[r])) ++ (IF q = r THEN Trace(D[q] ** D[q]) ELSE Rat(0, 1))]]
      ls == [q \in 1..m |-> [v \in 1..P |-> IF q \in {V[v][1], V[v][2]}
               THEN At(Si, q, IF V[v][1] = q THEN V[v][2] ELSE V[v][1]) ** Trace(D[q]) ELSE Rat(0, 1)]]
      \* tr(Si Ea Si Eb) / 2
      ss == [a \in 1..P |-> [b \in 1..P |-> LET i == V[a][1]  j == V[a][2]  h == V[b][1]  k == V[b][2]
               c == (At(Si, i, h) ** At(Si, j, k)) ++ (At(Si, i, k) ** At(Si, j, h)) IN
               n ** (CASE i = j /\ h = k -> Rat(1, 4) ** c [] i # j /\ h # k -> c [] OTHER -> Rat(1, 2) ** c)]]
      mat(f, R, C) == VCat([a \in 1..R |-> HCat([b \in 1..C |-> f[a][b]])])
      LL == mat(ll, m, m)  LS1 == mat(ls, m, P)
  IN VCat(<<HCat(<<LL, LS1>>), HCat(<<Tr(LS1), mat(ss, P, P)>>)>>)
MlStage(e, s) ==
  LET o == e.obs  d == Fit0(e)  W == e.in.W  K == KsOf(d.X)  lam == o.lamsur  m == M(e)  n == Rows(d.y[1])
      E == o.bigE  b == VCat(o.bSUR)
      cst == MNeg(Rat(n, 2) ** (m ** (1 ++ LN(TwoPi))))
      cl == Clik(W, E, lam) IN
  CASE s = 1 -> NameCl(e) \o
    LET F(q, v) == MNeg(Clik(W, E, SetAt(lam, q, v)))
        \* one more round of GLS at the estimates
        g == Gls(FiltAll(W, lam, d.y), FiltAll(W, lam, d.X), FiltE(W, lam, E)) IN
    << Cl("lambda-maximises-likelihood", AllEq(e, LAMBDA q: LET Fq(v) == F(q, v) IN ML1!Minimiser(Fq, At(lam, q, 1), Rat(1, 1000)))),
       Cl("settled", Le(Clik(W, Resid(d.y, d.X, g.b), lam) -- cl, Rat(1, 10000))),
       Cl("coefficients-settled", Le(MaxAll(MAbs(b -- g.bb) // SE(g.varb)), Rat(2, 100))),
       Cl("bigE", CloseD(E, Resid(d.y, d.X, o.bSUR), 8)),
       Cl("varb", CloseVm(o.varb, g.varb, 2)), Cl("sig", CloseVm(o.sig, g.sig, 2)),
       Cl("corr", CloseD(o.corr, CorrOf(o.sig), 8)),
       Cl("sur_inf", AllEq(e, LAMBDA q: CloseD(o.sur_inf[q], Infs(b, o.varb, K)[q], 6))),
       Cl("surerrllik", CloseD(o.surerrllik, cst ++ cl, 8)), Cl("n", CloseD(o.n, n, 12)) >>
    [] s = 2 ->
      LET Fo(q, v) == ML1!ErrNll(d.y[q], d.X[q], W, v)
          fs == GlsSeq(d.y, d.X, 6)
          D == <<SlogDiag(fs[1].sig)>> \o [j \in 1..7 |-> LogDet(fs[j].sig)]
          mr == (m * (m - 1)) \div 2  lr == 2 ** (o.surerrllik -- o.errllik)  ll == 2 ** (o.surerrllik -- o.llik) IN
    << Cl("single-equation-lambda", AllEq(e, LAMBDA q: LET Fq(v) == Fo(q, v) IN ML1!Minimiser(Fq, At(o.lamols, q, 1), Rat(1, 10000)))),
       Cl("errllik", CloseD(o.errllik, cst -- SumAll(FromSeq([q \in 1..m |-> Fo(q, At(o.lamols, q, 1))])), 8)),
       Cl("llik", \E t \in 0..6 : /\ CloseD(o.llik, cst -- Rat(n, 2) ** D[t + 2], 8)
                                  /\ t >= 5 \/ Le(MAbs(D[t + 2] -- D[t + 1]), Dec("0.000011"))),
       Cl("lrtest", IF e.cfg.nsd = 1 THEN Is(o.lrtest, [w |-> lr, df |-> mr, p |-> Chi2Sf(lr, mr)], 7) ELSE Same(o.lrtest, "none")),
       Cl("likrlambda", IF e.cfg.spat = 1 THEN Is(o.likrlambda, [w |-> ll, df |-> m, p |-> Chi2Sf(ll, m)], 7) ELSE Same(o.likrlambda, "none")) >>
      \o BetweenCl(o.surchow, b, o.varb, K) \o ChowCl(e, b, o.varb)
    [] s = 3 ->
      IF e.cfg.vm = 0 THEN << Cl("vm-absent", Same(o.vm, "none") /\ Same(o.lamtest, "none") /\ Same(o.joinlam, "none")) >>
      ELSE LET V == Inv(InfoL(W, lam, o.sig))  vl == ColsOf(RowsOf(V, Nums(m)), Nums(m))
               eqs == [q \in 1..(m - 1) |-> <<1, q + 1>>] IN
      << Cl("vm", CloseVm(o.vm, V, 6)), Cl("lamsetp", CloseD(o.lamsetp, SurInf(lam, vl), 6)),
         Cl("lamtest", Is(o.lamtest, WaldEq(lam, vl, eqs), 6)),
         Cl("joinlam", IF e.cfg.spat = 1 THEN Is(o.joinlam, WaldZero(lam, vl, Nums(m)), 6) ELSE Same(o.joinlam, "none")) >>
    [] OTHER -> <<>>
Stage(s, e) == IF Raised(e) THEN << Cl("call-returns", FALSE) >>
               ELSE CASE e.cfg.est = "SURlagIV" -> LagStage(e, s) [] e.cfg.est = "SURerrorGM" -> GmStage(e, s) [] OTHER -> MlStage(e, s)
TNext == Replay(Stage, 3)
================================================================================
