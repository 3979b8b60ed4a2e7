---------------------------------- MODULE GMM ----------------------------------
(* Generalized moments estimation of spatial error models: the moment problems   *)
(* of Kelejian-Prucha (98/99), Arraiz et al. (het) and Drukker et al. (hom), the  *)
(* feasible GLS refit on filtered data and the joint covariances.                 *)
(* A problem is p = [y, Z, H, W, form]; form = "x": no instruments (H = Z).        *)
EXTENDS Reg

Eye(n) == Ident(n)
Filt(W, l, x) == x -- l ** (W ** x)
\* filtered regressors; p.WZ (optional) replaces the spatial lag of Z (models with regimes
\* interact the filtered variables with the regimes)
FiltZ(p, l) == IF "WZ" \in DOMAIN p THEN p.Z -- l ** p.WZ ELSE Filt(p.W, l, p.Z)
Fgls(p, l) == LET ys == Filt(p.W, l, p.y)  zs == FiltZ(p, l) IN
  IF p.form = "x"
  THEN LET f == LS(ys, zs) IN [b |-> f.b, varb |-> f.xtxi, us |-> f.u, zs |-> zs, predy |-> p.Z ** f.b, u |-> p.y -- p.Z ** f.b]
  ELSE LET f == IV(ys, zs, p.H) IN [b |-> f.b, varb |-> f.varb, us |-> f.u, zs |-> zs, predy |-> p.Z ** f.b, u |-> p.y -- p.Z ** f.b]
\* the implementation keeps the coefficient of the spatial lag in [-0.9, 0.9] (KP-HET)
ClampB(b) == LET k == Rows(b)  r == At(b, k, 1)  m == Rat(9, 10) IN
             IF Lt(m, MAbs(r)) THEN VCat(<<Head1(b, k - 1), MSign(r) ** m>>) ELSE b
Clamps(b) == Lt(Rat(9, 10), MAbs(At(b, Rows(b), 1)))
Refit(p, l, clamp) == LET f == Fgls(p, l) IN
  IF ~clamp THEN f
  ELSE LET b == ClampB(f.b) IN [f EXCEPT !.b = b, !.predy = p.Z ** b, !.u = p.y -- p.Z ** b]

(* ---- moment systems: [G, g]; the objective is the norm of g - G (l, l^2[, s]) *)
Kp98(W, u) ==
  LET n == Rows(u)  wu == W ** u  wwu == W ** wu
      d(a, b) == SumAll(a (.) b)
      row(s) == Tr(FromSeq(s))
  IN [G |-> VCat(<<row(<<2 ** d(u, wu), MNeg(d(wu, wu)), n>>),
                   row(<<2 ** d(wu, wwu), MNeg(d(wwu, wwu)), SumSq(W)>>),
                   row(<<d(u, wwu) ++ d(wu, wu), MNeg(d(wu, wwu)), 0>>)>>) // n,
      g |-> FromSeq(<<d(u, u), d(wu, wu), d(u, wu)>>) // n]
\* g_i = u'A_i u, with (I - lW)u in place of u expanded in powers of l
Quad(W, As, u) ==
  LET n == Rows(u)  wu == W ** u
      q(A, a, b) == SumAll(a (.) (A ** b))
      row(A) == Tr(FromSeq(<<q(A, u, wu) ++ q(A, wu, u), MNeg(q(A, wu, wu))>>))
  IN [G |-> VCat([i \in 1..Len(As) |-> row(As[i])]) // n,
      g |-> FromSeq([i \in 1..Len(As) |-> q(As[i], u, u)]) // n]
OffDiag(A) == A -- Diag(DiagOf(A))
A1Het(W) == OffDiag(Tr(W) ** W)
A1Hom(W, scaled) ==
  LET wpw == Tr(W) ** W  n == Rows(W)  t == Trace(wpw) // n
      a == wpw -- t ** Eye(n)
  IN IF scaled THEN a // (1 ++ Sq(t)) ELSE a
A2(W) == Half ** (W ++ Tr(W))

\* objective at l; V = weighting covariance or "none"; s profiled out when present (s >= 0)
Lvec(l) == FromSeq(<<l, Sq(l)>>)
Obj(M, Vi, l) ==
  IF Cols(M.G) = 2
  THEN LET r == M.g -- M.G ** Lvec(l) IN IF Same(Vi, "none") THEN SumSq(r) ELSE Tr(r) ** (Vi ** r)
  ELSE LET a == M.g -- ColsOf(M.G, <<1, 2>>) ** Lvec(l)  c == ColsOf(M.G, <<3>>)
           t == SumAll(a (.) c) // SumSq(c)
       IN SumSq(a -- (IF Lt(t, 0) THEN 0 ELSE t) ** c)
Greater(a, b) == IF Lt(a, b) THEN b ELSE a
Scale(M, Vi) == LET m2 == Greater(MaxAll(MAbs(M.G)), MaxAll(MAbs(M.g)))
                IN Sq(m2) ** (IF Same(Vi, "none") THEN 1 ELSE MaxAll(MAbs(Vi)))
Bound == Rat(99, 100)
\* l is a minimiser in [-.99, .99] to within tol (no better point at distance tol), at
\* least as good as the starting value
LocalMin(M, Vi, l, tol) ==
  LET v == Obj(M, Vi, l)  slack == Rat(1, 100000000) ** Scale(M, Vi)
      better(x) == Lt(Obj(M, Vi, x) ++ slack, v)
      up == l ++ tol  dn == l -- tol
  IN /\ Le(MAbs(l), Bound)
     /\ Le(up, Bound) => ~better(up)
     /\ Le(MNeg(Bound), dn) => ~better(dn)
     /\ ~better(0)

(* ---- weighting covariances of the two moments *)
Sym2(a, b, d) == VCat(<<HCat(<<a, b>>), HCat(<<b, d>>)>>)
\* heteroskedastic: A1, W+W' ; E = diag of squared filtered residuals
HetPsi(W, A1, e2) ==
  LET n == Rows(W)  S1 == 2 ** A1  S2 == W ++ Tr(W)
      tr(A, B) == SumAll((A (.) Tr(e2)) (.) Tr(B (.) Tr(e2)))     \* tr(A E B E)
  IN Sym2(tr(S1, S1), tr(S1, S2), tr(S2, S2)) // (2 * n)
\* P of the generalized 2SLS with filtered regressors
PHat(H, zs) == LET a == Inv(Tr(H) ** H) ** (Tr(H) ** zs) IN Rows(H) ** (a ** Inv(Tr(Tr(H) ** zs) ** a))
HetA(p, A1, u, l, P, zs, filt) ==
  LET n == Rows(u)  us == Filt(p.W, l, u)  S2 == p.W ++ Tr(p.W)
      a1 == p.H ** (P ** (Rat(-2, n) ** (Tr(zs) ** (A1 ** us))))
      a2 == p.H ** (P ** (Rat(-1, n) ** (Tr(zs) ** (S2 ** us))))
      back(a) == IF filt THEN a ELSE Solve(Eye(n) -- l ** Tr(p.W), a)
  IN HCat(<<back(a1), back(a2)>>)
E2(W, u, l) == LET us == Filt(W, l, u) IN us (.) us
HetPsiIv(p, A1, u, l, a) ==
  LET e2 == E2(p.W, u, l) IN HetPsi(p.W, A1, e2) ++ (Tr(a) ** (e2 (.) a)) // Rows(u)
JOf(M, l) == M.G ** FromSeq(<<1, 2 ** l>>)
BlockDiag(A, B) == VCat(<<HCat(<<A, Fill(Rows(A), Cols(B), 0)>>), HCat(<<Fill(Rows(B), Cols(A), 0), B>>)>>)
HetVmX(p, M, u, l) ==
  LET n == Rows(u)  zs == Filt(p.W, l, p.Z)  e2 == E2(p.W, u, l)
      zi == Inv(Tr(zs) ** zs)  J == JOf(M, l)
      psi == HetPsi(p.W, A1Het(p.W), e2)
  IN BlockDiag(zi ** (Tr(zs) ** (e2 (.) zs)) ** zi, Inv(Tr(J) ** (Inv(psi) ** J)) // n)
HetVmIv(p, M, u, l) ==
  LET n == Rows(u)  zs == Filt(p.W, l, p.Z)  e2 == E2(p.W, u, l)  P == PHat(p.H, zs)
      A1 == A1Het(p.W)
      a == HetA(p, A1, u, l, P, zs, TRUE)
      psi == HetPsiIv(p, A1, u, l, a)
      he == Tr(e2 (.) p.H)
      dd == (he ** p.H) // n
      dl == (he ** a) // n
      J == JOf(M, l)  psii == Inv(psi)  w == Inv(Tr(J) ** (psii ** J))
      o2 == psii ** (J ** w)
      L == BlockDiag(Tr(P), Tr(o2))
  IN (L ** VCat(<<HCat(<<dd, dl>>), HCat(<<Tr(dl), psi>>)>>) ** Tr(L)) // n

(* homoskedastic *)
Mu(us, k) == LET v == CASE k = 2 -> us (.) us [] k = 3 -> us (.) us (.) us [] OTHER -> (us (.) us) (.) (us (.) us)
             IN SumAll(v) // Rows(us)
HomPsi(W, A1, AA2, us) ==
  LET n == Rows(us)  s2 == Mu(us, 2)  d == DiagOf(A1)
      tr(A, B) == SumAll(A (.) Tr(B))
  IN Sym2((2 ** Sq(s2)) ** tr(A1, A1) ++ (Mu(us, 4) -- 3 ** Sq(s2)) ** SumSq(d),
          Sq(s2) ** (2 ** tr(A1, AA2)), Sq(s2) ** (2 ** tr(AA2, AA2))) // n
HomA(p, A1, AA2, us, zs) ==
  LET n == Rows(us)  P == PHat(p.H, zs) IN
  HCat(<<p.H ** (P ** (Rat(-2, n) ** (Tr(zs) ** (A1 ** us)))), p.H ** (P ** (Rat(-2, n) ** (Tr(zs) ** (AA2 ** us))))>>)
HomPsiIv(p, A1, AA2, us, zs) ==
  LET n == Rows(us)  a == HomA(p, A1, AA2, us, zs)  d == DiagOf(A1)
      ad == Tr(a) ** d
      m3 == Mu(us, 3)
      cross == Sym2(2 ** At(ad, 1, 1), At(ad, 2, 1), 0)
  IN HomPsi(p.W, A1, AA2, us) ++ (Mu(us, 2) ** (Tr(a) ** a) ++ m3 ** cross) // n
Joint(dd, dl, ll) == VCat(<<HCat(<<dd, dl>>), HCat(<<Tr(dl), ll>>)>>)
HomVmX(p, A1, M, u, l) ==
  LET n == Rows(u)  zs == Filt(p.W, l, p.Z)  us == Filt(p.W, l, u)  J == JOf(M, l)
      psii == Inv(HomPsi(p.W, A1, A2(p.W), us))
      ll == Inv(Tr(J) ** (psii ** J)) // n
      pdl == (Mu(us, 3) ** (Tr(p.Z) ** HCat(<<DiagOf(A1), Fill(n, 1, 0)>>))) // n
      P == Inv((Tr(zs) ** zs) // n)
  IN Joint(Mu(us, 2) ** Inv(Tr(zs) ** zs), Tr(P) ** (pdl ** (psii ** J)) ** ll, ll)
HomVmIv(p, A1, M, u, l) ==
  LET n == Rows(u)  zs == Filt(p.W, l, p.Z)  us == Filt(p.W, l, u)  J == JOf(M, l)
      AA2 == A2(p.W)
      psii == Inv(HomPsiIv(p, A1, AA2, us, zs))
      a == HomA(p, A1, AA2, us, zs)
      ll == Inv(Tr(J) ** (psii ** J)) // n
      pdl == (Mu(us, 3) ** (Tr(p.H) ** HCat(<<DiagOf(A1), Fill(n, 1, 0)>>)) ++ Mu(us, 2) ** (Tr(p.H) ** a)) // n
      P == PHat(p.H, zs)
      hz == Tr(p.H) ** zs
      dd == Mu(us, 2) ** Inv(Tr(hz) ** (Inv(Tr(p.H) ** p.H) ** hz))
  IN Joint(dd, Tr(P) ** (pdl ** (psii ** J)) ** ll, ll)

(* ---- minimiser by walking downhill from the start, then ternary search (used only *)
(* where the implementation does not report the parameter)                           *)
RECURSIVE Walk(_, _, _, _)
Walk(M, Vi, l, step) == LET nx == l ++ step IN
  IF Lt(Bound, MAbs(nx)) THEN l ELSE IF Lt(Obj(M, Vi, nx), Obj(M, Vi, l)) THEN Walk(M, Vi, nx, step) ELSE l
RECURSIVE Tern(_, _, _, _, _)
Tern(M, Vi, a, b, k) == IF k = 0 THEN Half ** (a ++ b)
  ELSE LET x == (2 ** a ++ b) // 3  y == (a ++ 2 ** b) // 3 IN
       IF Lt(Obj(M, Vi, x), Obj(M, Vi, y)) THEN Tern(M, Vi, a, y, k - 1) ELSE Tern(M, Vi, x, b, k - 1)
Clip(x) == IF Lt(Bound, x) THEN Bound ELSE IF Lt(x, MNeg(Bound)) THEN MNeg(Bound) ELSE x
Polish(M, Vi, l) == LET h == Rat(1, 100) IN Tern(M, Vi, Clip(l -- h), Clip(l ++ h), 40)
Argmin(M, Vi) ==
  LET h == Rat(1, 100)
      up == Walk(M, Vi, 0, h)
  IN Polish(M, Vi, IF Same(up, 0) THEN Walk(M, Vi, 0, MNeg(h)) ELSE up)
\* all the minimisers of the (quartic) objective in [-.99, .99]
Minima(M, Vi) == LET h == Rat(1, 100) IN
  <<Argmin(M, Vi), Polish(M, Vi, Walk(M, Vi, Bound, MNeg(h))), Polish(M, Vi, Walk(M, Vi, MNeg(Bound), h))>>
IsMin(M, Vi, l) ==
  \/ LocalMin(M, Vi, l, Rat(4, 1000))
  \/ /\ Le(MAbs(l), Bound)
     /\ LET c == Minima(M, Vi)  slack == Rat(1, 100000000) ** Scale(M, Vi) IN
        \E j \in 1..Len(c) : \/ Lt(MAbs(l -- c[j]), Rat(1, 100))
                             \/ Lt(Obj(M, Vi, l), Rat(102, 100) ** Obj(M, Vi, c[j]) ++ slack)
================================================================================
