---------------------------------- MODULE C21 -----------------------------------
(* Recorded maximum likelihood panel models.  The likelihood of the stacked panel  *)
(* is that of a cross section with block weights, on data from which all (fixed     *)
(* effects) or part (random effects) of the unit means were removed.                *)
EXTENDS Panel
ML1 == INSTANCE ML
NllE(e, y, X, l) == LET f == LS(y -- l ** WN(e, y), X -- l ** WN(e, X))  n == Rows(y) IN
  Rat(n, 2) ** LN(f.utu // n) -- Tt(e) ** ML1!Jac(e.in.W, l)
NllL(e, p, r) == LET u == p.e0 -- r ** p.e1  n == Rows(u) IN Rat(n, 2) ** LN(SumSq(u) // n) -- Tt(e) ** ML1!Jac(e.in.W, r)
ScaleTr(e, t) == [t1 |-> Tt(e) ** t.t1, t2 |-> Tt(e) ** t.t2, t3 |-> Tt(e) ** t.t3]
Crit(o, k, n, ll) == << Cl("logll", CloseD(o.logll, ll, 7)), Cl("aic", CloseD(o.aic, AIC(k, ll), 7)), Cl("schwarz", CloseD(o.schwarz, SC(n, k, ll), 7)) >>
Kofx(e, const) == Cols(Design(e, const))
\* ------------------------------------------------------------- error models
\* pooled (phi = 1: nothing removed) and fixed effects (phi = 0)
ErrPool(e, pooled) ==
  LET o == e.obs  phi == IF pooled THEN Rat(1, 1) ELSE Rat(0, 1)
      y0 == e.in.y  X0 == Design(e, pooled)  y == Demean(e, y0, phi)  X == Demean(e, X0, phi)
      k == Cols(X)  n == Rows(y)  l == At(o.betas, k + 1, 1)
      f == LS(y -- l ** WN(e, y), X -- l ** WN(e, X))
      u == y -- X ** f.b  ef == u -- l ** WN(e, u)  s2 == SumSq(ef) // n
      vm1 == Inv(ML1!ErrInfo(n, s2, ScaleTr(e, ML1!Traces(e.in.W, l))))
      vm == ML1!ErrVm(s2 ** f.xtxi, vm1)  b == VCat(<<f.b, l>>)
      ll == ML1!FullLl(NllE(e, y, X, l), n)
  IN << Cl("lambda-maximises", ML1!Minimiser(LAMBDA x: NllE(e, y, X, x), l, ML1!Tol)),
        Cl("betas", CloseD(o.betas, b, 6)), Cl("u", CloseD(o.u, u, 6)), Cl("predy", CloseD(o.predy, y -- u, 6)),
        Cl("e_filtered", CloseD(o.e_filtered, ef, 6)), Cl("sig2", CloseD(o.sig2, s2, 6)), Cl("vm", CloseVm(o.vm, vm, 6)), Cl("n", CloseD(o.n, n, 12)) >>
     \o Crit(o, k, n, ll) \o Table(o.table, Labels(e, pooled) \o <<"lambda">>, b, vm, ZTab(b, vm), 6)
     \o (IF pooled THEN <<>> ELSE LET mu == Means(e, y0 -- X0 ** f.b) IN
         << Cl("mu_i", CloseD(o.mu_i, mu, 6)), Cl("mean_mu_i", CloseD(o.mean_mu_i, Mean(mu), 6)) >>)
\* ----------------------------------------------------------- lag, fixed effects
\* the search is confined to |rho| < 0.99: at a bound the likelihood rises towards it
RhoOk(F(_), r) == IF Lt(Dec("0.9898"), MAbs(r)) THEN Le(F(r), F((Rat(99, 100)) ** r) ++ Dec("0.000001")) ELSE ML1!Minimiser(F, r, ML1!Tol)
LagFe(e) ==
  LET o == e.obs  y0 == e.in.y  X0 == Design(e, FALSE)  y == Demean(e, y0, 0)  X == Demean(e, X0, 0)
      k == Cols(X)  n == Rows(y)  r == At(o.betas, k + 1, 1)  B == Block(e)
      p == ML1!LagParts(y, X, B)  f == ML1!LagFit(y, X, B, r, p)
      info == ML1!LagInfo(X, B, r, f.pe, f.s2, ScaleTr(e, ML1!Traces(e.in.W, r)))
      vm1 == Inv(info)  q == NumSeq(1, k + 1)  vm == RowsOf(ColsOf(vm1, q), q)
      ll == ML1!FullLl(NllL(e, p, r), n)
      mu == Means(e, y0 -- X0 ** Head1(f.b, k))
  IN << Cl("rho-maximises", RhoOk(LAMBDA x: NllL(e, p, x), r)),
        Cl("betas", CloseD(o.betas, f.b, 6)), Cl("u", CloseD(o.u, f.u, 6)), Cl("predy", CloseD(o.predy, f.predy, 6)), Cl("predy_e", CloseD(o.predy_e, f.pe, 4)),
        Cl("e_pred", CloseD(o.e_pred, y -- f.pe, 4)), Cl("sig2", CloseD(o.sig2, f.s2, 6)), Cl("vm", CloseVm(o.vm, vm, 5)), Cl("vm1", CloseVm(o.vm1, vm1, 5)),
        Cl("varb", CloseVm(o.varb, Inv(RowsOf(ColsOf(info, q), q)), 5)), Cl("n", CloseD(o.n, n, 12)),
        Cl("mu_i", CloseD(o.mu_i, mu, 6)), Cl("mean_mu_i", CloseD(o.mean_mu_i, Mean(mu), 6)) >>
     \o Crit(o, k + 1, n, ll) \o Table(o.table, Labels(e, FALSE) \o <<"W_" \o e.in.name_y>>, f.b, vm, ZTab(f.b, vm), 5)
\* ---------------------------------------------------------- lag, random effects
\* minus log likelihood at (b, rho, phi), up to constants; sigma^2 profiled out
NllRe(e, y, X, b, r, phi) == LET d == y -- r ** WN(e, y) -- X ** b  u == Demean(e, d, phi)  n == Rows(y) IN
  Rat(n, 2) ** LN(SumSq(u) // n) -- Tt(e) ** ML1!Jac(e.in.W, r) -- Nn(e) ** LN(phi)
PhiOk(F(_), phi) ==
  LET h == Dec("0.0001")  lo == Dec("0.00000002")  hi == 1 -- Dec("0.00000002") IN
  IF Lt(phi, 2 ** h) THEN TRUE ELSE IF Lt(1 -- 2 ** h, phi) THEN Le(F(phi), F(1 -- 4 ** h) ++ Dec("0.000001"))
  ELSE ML1!Minimiser(F, phi, Dec("0.001"))
\* the information as published (Elhorst), symmetric
ReInfo(e, info, t1, s2, phi) ==
  LET m == Rows(info)  n == Nn(e)  q == NumSeq(1, m - 1)
      c == FromSeq([j \in 1..m |-> IF j = m - 1 THEN MNeg(t1) // s2 ELSE IF j = m THEN Rat(0 - n, 1) // s2 ELSE Rat(0, 1)])
      A == RowsOf(ColsOf(info, q), q)  s == ColsOf(RowsOf(info, q), <<m>>)
      cq == RowsOf(c, q)  nn == Rat(0 - n, 1)
  IN VCat(<<HCat(<<A, cq, s>>), HCat(<<Tr(cq), FromSeq(<<n ** (1 ++ 1 // Sq(phi))>>), FromSeq(<<nn // s2>>)>>),
            HCat(<<Tr(s), FromSeq(<<nn // s2>>), At(info, m, m)>>)>>)
\* minus the expected second derivatives of the likelihood: only the rows of phi differ
ExactInfo(e, info, t1, s2, phi) ==
  LET m == Rows(info)  n == Nn(e)  q == NumSeq(1, m - 1)  z == Rat(0, 1)
      c == FromSeq([j \in 1..m |-> IF j = m - 1 THEN MNeg(2 ** t1) // phi ELSE IF j = m THEN Rat(0 - n, 1) // (s2 ** phi) ELSE z])
      A == RowsOf(ColsOf(info, q), q)  s == ColsOf(RowsOf(info, q), <<m>>)
      cq == RowsOf(c, q)  x == RowsOf(c, <<m>>)
  IN VCat(<<HCat(<<A, cq, s>>), HCat(<<Tr(cq), FromSeq(<<(2 * n) // Sq(phi)>>), x>>), HCat(<<Tr(s), x, At(info, m, m)>>)>>)
\* inference for the coefficients whose coded variance is positive
TableVar(t, labels, b, vm) ==
  LET j == SelectSeq(NumSeq(1, Rows(vm)), LAMBDA i: Lt(0, At(vm, i, i)))  z == ZTab(RowsOf(b, j), RowsOf(ColsOf(vm, j), j)) IN
  << Cl("output.names", Same(t.var_names, labels)), Cl("output.coefficients", CloseD(t.coefficients, b, 4)),
     Cl("output.undefined", IF Len(j) = Rows(vm) THEN "std_err_nan" \notin DOMAIN t
                            ELSE Same(Fld(t, "std_err_nan"), [i \in 1..Rows(vm) |-> IF Lt(0, At(vm, i, i)) THEN 0 ELSE 1])) >>
  \o (IF j = <<>> THEN <<>> ELSE
      << Cl("output.std_err", CloseD(RowsOf(t.std_err, j), SE(RowsOf(ColsOf(vm, j), j)), 3)), Cl("output.stat", CloseD(RowsOf(t.zt_stat, j), ColsOf(z, <<1>>), 3)),
         Cl("output.prob", CloseD(RowsOf(t.prob, j), ColsOf(z, <<2>>), 2)) >>)
LagRe(e) ==
  LET o == e.obs  y0 == e.in.y  X0 == Design(e, TRUE)  k == Cols(X0)  r == At(o.betas, k + 1, 1)  phi == At(o.betas, k + 2, 1)
      y == Demean(e, y0, phi)  X == Demean(e, X0, phi)  n == Rows(y)  B == Block(e)
      p == ML1!LagParts(y, X, B)  f == ML1!LagFit(y, X, B, r, p)  b1 == Head1(f.b, k)
      t == ML1!Traces(e.in.W, r)
      info == ML1!LagInfo(X, B, r, f.pe, f.s2, ScaleTr(e, t))
      full == ReInfo(e, info, t.t1, f.s2, phi)  vm1 == Inv(full)  q == NumSeq(1, k + 2)  vm == RowsOf(ColsOf(vm1, q), q)
      q1 == NumSeq(1, k + 1)
      ll == ML1!FullLl(NllL(e, p, r) -- Nn(e) ** LN(phi), n)
      bb == VCat(<<f.b, phi>>)
  IN << Cl("rho-maximises", RhoOk(LAMBDA x: NllL(e, p, x), r)),
        Cl("phi-maximises", PhiOk(LAMBDA x: NllRe(e, y0, X0, b1, r, x), phi)),
        Cl("betas", CloseD(o.betas, bb, 6)), Cl("u", CloseD(o.u, f.u, 6)), Cl("predy", CloseD(o.predy, f.predy, 6)), Cl("predy_e", CloseD(o.predy_e, f.pe, 4)),
        Cl("sig2", CloseD(o.sig2, f.s2, 6)), Cl("vm", CloseVm(o.vm, vm, 5)), Cl("vm-symmetric", CloseVm(o.vm, Tr(vm), 5)),
        Cl("n", CloseD(o.n, n, 12)) >>
     \o << Cl("vm-information", CloseVm(o.vm, RowsOf(ColsOf(Inv(ExactInfo(e, info, t.t1, f.s2, phi)), q), q), 4)) >>
     \o Crit(o, k + 1, n, ll) \o TableVar(o.table, Labels(e, TRUE) \o <<"W_" \o e.in.name_y, "phi">>, bb, vm)
\* -------------------------------------------------------- error, random effects
\* covariance of the unit mean times T, relative to sigma^2
BtBi(e, l) == LET A == Ident(Nn(e)) -- l ** e.in.W IN Inv(Tr(A) ** A)
Om(e, l, phi) == (Tt(e) ** phi) ** Ident(Nn(e)) ++ BtBi(e, l)
\* quadratic form of the stacked residuals: within part filtered, between part weighted by Om^-1
Quad(e, l, phi, a, b) == LET wa == Demean(e, a, 0)  wb == Demean(e, b, 0)  fa == wa -- l ** WN(e, wa)  fb == wb -- l ** WN(e, wb) IN
  (Tr(fa) ** fb) ++ Tt(e) ** (Tr(Means(e, a)) ** Solve(Om(e, l, phi), Means(e, b)))
ReB(e, y, X, l, phi) == Solve(Quad(e, l, phi, X, X), Quad(e, l, phi, X, y))
NllReE(e, y, X, l, phi) ==
  LET b == ReB(e, y, X, l, phi)  u == y -- X ** b  n == Rows(y)  q == At(Quad(e, l, phi, u, u), 1, 1) IN
  Rat(n, 2) ** LN(q // n) ++ Half ** LogDet(Om(e, l, phi)) -- (Tt(e) - 1) ** ML1!Jac(e.in.W, l)
\* no point nearby, nor the conventional start, has a larger likelihood
LocalMax(F(_, _), l, phi) ==
  LET v == F(l, phi)  h == Dec("0.01")  slack == Dec("0.00001")
      worse(x, z) == Le(v, F(x, z) ++ slack)
  IN /\ worse(Rat(0, 1), Rat(1, 100))
     /\ Lt(MAbs(l), Dec("0.998")) =>      \* the quasi-Newton search can stop short at its bounds
          /\ (Le(l ++ h, Dec("0.999")) => worse(l ++ h, phi)) /\ (Le(Dec("-0.999"), l -- h) => worse(l -- h, phi))
          /\ worse(l, phi ** Dec("1.03")) /\ worse(l, phi ** Dec("0.97"))
Infor(e, l, phi, s2, published) ==
  LET n == Nn(e)  T == Tt(e)  A == Ident(n) -- l ** e.in.W  Bi == BtBi(e, l)
      sw == IF published THEN phi ELSE Sqrt(phi)
      M == (Tr(e.in.W) ** A) ++ (Tr(A) ** e.in.W)
      \* as coded: the diagonal of the coded A is filled with ones (the same, W has none)
      g == M ** Bi  vi == Inv((T ** sw) ** Ident(n) ++ Bi)  s == vi ** Bi  sg == s ** g
      t1 == Trace(g)  t2 == Trace(vi)  t3 == Trace(s)  t4 == Trace(sg)  t5 == Trace(s ** vi)  t6 == Trace(sg ** vi)  t7 == Trace(sg ** s)
      tt(x) == SumAll(x (.) Tr(x))
      sq(x, X) == IF published THEN tt(X) ELSE Sq(x)
      r(x) == Tr(FromSeq(x))
  IN VCat(<<r(<<(Rat(T - 1, 2) ** sq(t1, g)) ++ Half ** sq(t4, sg), (T ** t6) // (2 ** s2), ((T - 1) ** t1) // (2 ** s2) ++ t7 // (2 ** s2)>>),
            r(<<(T ** t6) // (2 ** s2), (Sq(T) ** sq(t2, vi)) // (2 ** Sq(s2)), (T ** t5) // (2 ** Sq(s2))>>),
            r(<<((T - 1) ** t1) // (2 ** s2) ++ t7 // (2 ** s2), (T ** t5) // (2 ** Sq(s2)), (((T - 1) * n) ++ sq(t3, s)) // (2 ** Sq(s2))>>)>>)
ErrRe(e) ==
  LET o == e.obs  y == e.in.y  X == Design(e, TRUE)  k == Cols(X)  n == Rows(y)
      l == At(o.betas, k + 1, 1)  phi == o.phi
      b == ReB(e, y, X, l, phi)  u == y -- X ** b  s2 == At(Quad(e, l, phi, u, u), 1, 1) // n
      vb == s2 ** Inv(Quad(e, l, phi, X, X))
      ext(V) == VCat(<<HCat(<<vb, Fill(k, 2, 0)>>), HCat(<<Fill(2, k, 0), RowsOf(ColsOf(V, <<1, 2>>), <<1, 2>>)>>)>>)
      vm == ext(Inv(Infor(e, l, phi, s2, FALSE)))
      bb == VCat(<<b, l, phi ** s2>>)
      ll == ML1!FullLl(NllReE(e, y, X, l, phi), n)
      F(x, z) == NllReE(e, y, X, x, z)
  IN << Cl("maximises", LocalMax(F, l, phi)),
        Cl("betas", CloseD(o.betas, bb, 6)), Cl("u", CloseD(o.u, u, 6)), Cl("predy", CloseD(o.predy, y -- u, 6)), Cl("sig2", CloseD(o.sig2, s2, 6)),
        Cl("filtered-residuals", CloseD(SumSq(o.e_filtered), n ** s2, 6)), Cl("sig2_u", CloseD(o.sig2_u, phi ** s2, 6)),
        Cl("vm-as-coded", CloseVm(o.vm, vm, 5)), Cl("vm-information", CloseVm(o.vm, ext(Inv(Infor(e, l, phi, s2, TRUE))), 4)),
        Cl("varb", CloseVm(o.varb, vb, 6)), Cl("n", CloseD(o.n, n, 12)),
        Cl("logll", CloseD(o.logll, ll, 5)), Cl("aic", CloseD(o.aic, AIC(k, o.logll), 9)), Cl("schwarz", CloseD(o.schwarz, SC(n, k, o.logll), 9)) >>
     \o Table(o.table, Labels(e, TRUE) \o <<"lambda", "sigma2_u">>, bb, vm, ZTab(bb, vm), 5)
\* ------------------------------------- deprecated classes and their successors
\* a random effects error model may have several local maxima: the two classes agree
\* or the reported parameters are a maximum in their own right
Agree(o, r, d) == << Cl("betas", CloseD(o.betas, r.betas, d)), Cl("u", CloseD(o.u, r.u, d - 1)), Cl("predy", CloseD(o.predy, r.predy, d - 1)), Cl("vm", CloseVm(o.vm, r.vm, d - 1)),
                     Cl("sig2", CloseD(o.sig2, r.sig2, d)) >>
\* the log likelihood, and what the deprecated classes report in its place: without the
\* constant of the concentrated variance, or without the Jacobian of the quasi demeaning
OldLl(e, d) ==
  LET o == e.obs  r == e.ref  n == Rows(e.in.W)  nt == Rows(o.u)  phi == At(o.betas, Rows(o.betas), 1)
      c == IF e.cfg.est = "Panel_RE_Lag" THEN Rat(n, 1) ** LN(MAbs(phi)) ELSE Rat(nt, 2) ** LN(nt) IN
  << Cl("logll-as-coded", CloseD(o.logll, r.logll -- c, d)), Cl("logll-of-the-model", CloseD(o.logll, r.logll, d)) >>
Successor(e) ==
  LET o == e.obs  r == e.ref  m == Rows(o.betas)
      re == e.cfg.est = "Panel_RE_Error"
      l == At(o.betas, m - 1, 1)  phi == At(o.betas, m, 1) // o.sig2  X == Design(e, TRUE)  F(x, z) == NllReE(e, e.in.y, X, x, z)
  IN << Cl("names", Same(o.name_x, r.names)), Cl("layout", Same(e.alt.exc, "null") /\ CloseD(e.alt.betas, o.betas, IF re THEN 3 ELSE 4)) >>
     \o (IF re THEN << Cl("maximises", Lt(MAbs(l), Dec("0.998")) => LocalMax(F, l, phi)) >>
                   \o (IF Lt(MAbs(l -- At(r.betas, m - 1, 1)), Dec("0.00005")) /\ Lt(MAbs(l), Dec("0.998")) THEN LET q == NumSeq(1, m - 2)  sub(x) == [x EXCEPT !.betas = RowsOf(@, q), !.vm = RowsOf(ColsOf(@, q), q)] IN Agree(sub(o), sub(r), 3) \o OldLl(e, 3) ELSE <<>>)
         ELSE LET at == IF e.cfg.est = "Panel_RE_Lag" THEN m - 1 ELSE m IN
              IF e.cfg.est # "Panel_FE_Error" /\ Lt(Dec("0.9898"), MAbs(At(o.betas, at, 1))) THEN <<>> ELSE Agree(o, r, 4) \o OldLl(e, 4))
\* ----------------------------------------------------------------- Hausman
Hausman(e) ==
  LET o == e.obs  f == o.fe  r == o.re  k == Rows(f.varb)
      m == IF e.cfg.est = "HausmanLag" THEN k ELSE k
      d == RowsOf(f.betas, NumSeq(1, m)) -- RowsOf(r.betas, NumSeq(2, m + 1))
      q == NumSeq(2, m + 1)  V == RowsOf(ColsOf(r.varb, q), q) -- f.varb
      H == Tr(d) ** Solve(V, d)
      p == IF Lt(0, H) THEN Chi2Sf(H, r.k) ELSE Rat(1, 1)
  IN << Cl("hausman-as-coded", CloseD(o.h, H, 5) /\ CloseD(o.p, p, 5)),
        Cl("hausman", CloseD(o.h, MNeg(H), 5)) >>
\* a power expansion at the estimated rho that cannot converge may be refused
Refused(e) ==
  /\ StrHas(e.exc.msg, "power expansion") /\ e.cfg.est \in {"ML_LagFE", "ML_LagRE", "Panel_FE_Lag", "Panel_RE_Lag"} /\ SeqLen(e.rho0) = 1
  /\ Lt(Dec("0.999"), Sq(e.rho0[1]) ** MaxAll(RowSums(MAbs(e.in.W))) ** MaxAll(ColSums(MAbs(e.in.W))))
  /\ e.cfg.est \in {"ML_LagFE", "Panel_FE_Lag"} =>
       LET p == ML1!LagParts(Demean(e, e.in.y, 0), Demean(e, Design(e, FALSE), 0), Block(e)) IN RhoOk(LAMBDA x: NllL(e, p, x), e.rho0[1])
Stage(s, e) ==
  IF Raised(e) THEN (IF s = 1 THEN << Cl("no-exception", Refused(e)) >> ELSE <<>>) ELSE
  CASE s = 1 -> (CASE e.cfg.est = "ML_ErrorPooled" -> ErrPool(e, TRUE) [] e.cfg.est = "ML_ErrorFE" -> ErrPool(e, FALSE)
    [] e.cfg.est = "ML_LagFE" -> LagFe(e) [] e.cfg.est = "ML_LagRE" -> LagRe(e) [] e.cfg.est = "ML_ErrorRE" -> ErrRe(e)
    [] e.cfg.est \in {"HausmanLag", "HausmanError"} -> Hausman(e) [] OTHER -> Successor(e))
   [] OTHER -> IF e.cfg.est \in {"ML_ErrorPooled", "ML_ErrorFE", "ML_LagFE", "ML_LagRE", "ML_ErrorRE"} THEN LayoutCl(e) ELSE <<>>
TNext == Replay(Stage, 2)
================================================================================
