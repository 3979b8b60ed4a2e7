----------------------------------- MODULE C28 -----------------------------------
(* Recorded NSLX fits: weights from the coordinates, optimum, covariance, table.     *)
EXTENDS Tab
IsInf(b) == Same(b, "inf")
\* scaled distances of the k nearest within the bound; mask of neighbours and values
Weights(D, p) ==
  LET n == Rows(D)
      within(i, j) == j # i /\ (IsInf(p.bound) \/ Lt(At(D, i, j), p.bound))
      nbs(i) == LET s == SortSeq(SelectSeq(NumSeq(1, n), LAMBDA j: within(i, j)), LAMBDA a, b: Lt(At(D, i, a), At(D, i, b))) IN SubSeq(s, 1, IF Len(s) < p.k THEN Len(s) ELSE p.k)
      N == [i \in 1..n |-> nbs(i)] \o <<>>
      mask == VCat([i \in 1..n |-> Tr(FromSeq([j \in 1..n |-> IF j \in ToSet(N[i]) THEN 1 ELSE 0] \o <<>>))] \o <<>>)
      far == FromSeq([i \in 1..n |-> IF N[i] = <<>> THEN Rat(1, 1) ELSE At(D, i, N[i][Len(N[i])])] \o <<>>)
      f == (mask (.) D) // (far ** Fill(1, n, 1))
  IN [mask |-> mask, w |-> IF p.tr = "power" THEN mask (.) (1 -- f) ELSE f]
\* 0^a is 0, and so is its derivative
Pos(P) == MSign(P.w)
Apply(P, tr, a) == IF tr = "power" THEN (LET s == Pos(P) IN s (.) MPowE(s (.) P.w ++ (1 -- s), a)) ELSE P.mask (.) MExp(MNeg(a) ** P.w)
\* derivative of the transformed weights
Grad(P, tr, a) == IF tr = "power" THEN LET s == Pos(P)  x == s (.) P.w ++ (1 -- s) IN s (.) (MPowE(x, a) (.) LN(x)) ELSE MNeg(P.w (.) MExp(MNeg(a) ** P.w))
\* the derivative as coded carries a factor ln(a w)
Coded(P, tr, a) == IF tr = "power" THEN Grad(P, tr, a) ELSE LET s == Pos(P) IN Grad(P, tr, a) (.) LN(a ** (s (.) P.w) ++ (1 -- s))
FitCl(e) ==
  LET o == e.obs  i == e.in  X == i.X  y == i.y  kk == Cols(X)  h == Cols(i.xw)  n == Rows(X)
      PP == [j \in 1..Len(i.par) |-> Weights(i.D, i.par[j])] \o <<>>
      P(j) == IF Len(PP) = 1 THEN PP[1] ELSE PP[j]
      tr(j) == IF Len(PP) = 1 THEN i.par[1].tr ELSE i.par[j].tr
      col(j, a) == Apply(P(j), tr(j), a) ** ColsOf(i.xw, <<j>>)
      b == RowsOf(o.betas, NumSeq(1, kk))  al(j) == At(o.betas, kk + j, 1)
      sumw(a) == FoldLeft(LAMBDA s, j: s ++ col(j, a[j]), Fill(n, 1, 0), NumSeq(1, h))
      a0 == [j \in 1..h |-> al(j)] \o <<>>
      pred == (X ** b) ++ sumw(a0)  u == y -- pred  rss == SumSq(u)  s2 == rss // n
      XtXi == Inv(Tr(X) ** X)
      conc(a) == LET z == y -- sumw(a) IN SumSq(z -- (X ** (XtXi ** (Tr(X) ** z))))
      better(h1) == \E j \in 1..h : \E sg \in {-1, 1} : Lt(conc([a0 EXCEPT ![j] = a0[j] ++ sg ** h1]), rss ** Dec("0.99999"))
      G == HCat([j \in 1..h |-> Grad(P(j), tr(j), al(j)) ** ColsOf(i.xw, <<j>>)] \o <<>>)
      GG == Tr(G) ** G
      H == HCat([j \in 1..h |-> Coded(P(j), tr(j), al(j)) ** ColsOf(i.xw, <<j>>)] \o <<>>)
      HH == Tr(H) ** H
      \* decay variances are recoverable from the reported numbers only if the gradient is
      wellposed == Same(i.well, TRUE)
      ll == MNeg(Rat(n, 2) ** (LN(TwoPi) ++ LN(s2) ++ 1)) IN
  << Cl("names", Same(o.names, i.names)), Cl("k", o.k = kk + h), Cl("n", o.n = n), Cl("utu", CloseD(o.utu, rss, 8)), Cl("sig2", CloseD(o.sig2, s2, 8)), Cl("sign", CloseD(o.sign, s2, 8)),
     Cl("predy", CloseD(o.predy, pred, 7)), Cl("u", Within(o.u, u, Dec("0.0000001") ** (1 ++ MaxAll(MAbs(y))))),
     Cl("ll", CloseD(o.ll, ll, 8)), Cl("aic", CloseD(o.aic, 2 ** (kk + h) -- 2 ** ll, 8)), Cl("schwarz", CloseD(o.schwarz, (kk + h) ** LN(Rat(n, 1)) -- 2 ** ll, 8)) >>
  \o (IF ~Same(o.success, TRUE) THEN <<>> ELSE
     << Cl("linear-optimum", Le(rss -- conc(a0), Dec("0.00001") ** rss)), Cl("decay-optimum", ~better(Dec("0.02")) /\ ~better(Dec("0.2"))) >>)
  \o (IF e.cfg.vf = 0 THEN << Cl("vm-from-hessian", CloseVm(o.vm, s2 ** o.ihess, 8)) >>
      ELSE << Cl("vm-linear", CloseVm(o.vll, s2 ** XtXi, 7)), Cl("vm-cross", Le(MaxAll(MAbs(o.vla)), Rat(0, 1))) >> \o
           (IF ~wellposed THEN <<>> ELSE << Cl(IF \A j \in 1..h : tr(j) = "power" THEN "vm-decay-power" ELSE "vm-decay-exponential", CloseVm(o.vaa, s2 ** Inv(GG), 6)) >>
             \o (IF Same(i.finite, TRUE) THEN << Cl("vm-decay", CloseVm(o.vaa, s2 ** Inv(GG), 6) \/ CloseVm(o.vaa, s2 ** Inv(HH), 6)) >> ELSE <<>>)))
  \o (IF IsMat(o.vm) /\ Same(i.finite, TRUE) THEN Table(o.output, i.names, o.betas, o.vm, ZTab(o.betas, o.vm), 8) ELSE <<>>)
Stage(s, e) == IF Raised(e) THEN << Cl("no-exception", FALSE) >> ELSE FitCl(e)
TNext == Replay(Stage, 1)
================================================================================
