---------------------------------- MODULE C18 ----------------------------------
(* Recorded SUR and 3SLS fits.                                                    *)
EXTENDS Sur
SurStage(e, s) ==
  LET o == e.obs  m == M(e)  y == e.in.y  X == [q \in 1..m |-> Xm(e, q)] \o <<>>
      t == IF e.cfg.iter = 1 THEN o.t ELSE 0
      fs == GlsSeq(y, X, t)  f == fs[t + 1]  S1 == fs[1].sig  K == KsOf(X)
      E == Resid(y, X, f.b)  n == Rows(y[1])  ld == LogDet(f.sig) IN
  CASE s = 1 ->
    << Cl("names", AllEq(e, LAMBDA q: Same(o.name_bigX[q], NamesOf(e, EqX(e.cfg.kx[q], e.cfg.nr), q)) /\ Same(o.name_bigy[q], e.in.name_y[q]))),
       Cl("bOLS", AllEq(e, LAMBDA q: CloseD(o.bOLS[q], Single(y, X)[q], 7))),
       Cl("bSUR", AllEq(e, LAMBDA q: CloseD(o.bSUR[q], f.b[q], 7))),
       Cl("varb", CloseVm(o.varb, f.varb, 7)), Cl("sig", CloseD(o.sig, f.sig, 7)), Cl("corr", CloseD(o.corr, CorrOf(f.sig), 7)),
       Cl("bigE", CloseD(o.bigE, E, 7)), Cl("bigYP", CloseD(o.bigYP, Pred(X, f.b), 7)),
       Cl("sur_inf", AllEq(e, LAMBDA q: CloseD(o.sur_inf[q], Infs(f.bb, f.varb, K)[q], 6))),
       Cl("llik", CloseD(o.llik, MNeg(Rat(n, 2)) ** ((m ** (1 ++ LN(TwoPi))) ++ ld), 8)),
       Cl("n", CloseD(o.n, n, 12)) >>
    [] s = 2 ->
      (IF e.cfg.nsd = 0 THEN << Cl("tests-absent", Same(o.lrtest, "none") /\ Same(o.lmtest, "none")) >>
       ELSE LET d == (m * (m - 1)) \div 2
                lr == n ** (SlogDiag(S1) -- ld)
                R == CorrOf(S1)
                lm == Rat(n, 2) ** (Trace(Tr(R) ** R) -- m) IN
            << Cl("lrtest", Is(o.lrtest, [w |-> lr, df |-> d, p |-> Chi2Sf(lr, d)], 6)),
               Cl("lmtest", Is(o.lmtest, [w |-> lm, df |-> d, p |-> Chi2Sf(lm, d)], 6)) >>)
      \o (IF e.cfg.spat = 0 THEN << Cl("spatial-tests-absent", Same(o.lmEtest, "none") /\ Same(o.lmlagtest, "none")) >>
          ELSE << Cl("lmEtest", Is(o.lmEtest, LmE(m, e.in.W, E, f.sig), 6)),
                  Cl("lmlagtest", Is(o.lmlagtest, LmL(e.in.W, y, X, E, Pred(X, f.b), f.sig, f.varb), 6)) >>)
      \o BetweenCl(o.surchow, f.bb, f.varb, K) \o ChowCl(e, f.bb, f.varb)
    [] s = 3 /\ e.cfg.iter = 1 ->
      LET D == <<SlogDiag(S1)>> \o [j \in 1..(t + 1) |-> LogDet(fs[j].sig)]  \* D[j + 1]: after j estimates
          ch(j) == MAbs(D[j + 2] -- D[j + 1])  eps == e.in.eps IN
      << Cl("iterates-while-changing", \A j \in 0..(t - 1) : Lt(eps, ch(j) ++ Dec("0.000000001"))),
         Cl("stops-when-settled", t >= e.cfg.maxiter \/ Le(ch(t), eps ++ Dec("0.000000001"))),
         Cl("iteration-limit", t <= e.cfg.maxiter) >>
    [] s = 3 -> << Cl("niter", CloseD(o.niter, 1, 12)) >>
    [] OTHER -> <<>>
SlsStage(e, s) ==
  LET g == SlsFit(e, LAMBDA q: Qm(e, q)) IN
  CASE s = 1 -> SlsCl(e, g, LAMBDA q: NamesOf(e, EqQ(e.cfg.kq[q], e.cfg.nr), q))
    [] s = 2 -> BetweenCl(e.obs.surchow, g.f.bb, g.f.varb, KsOf(g.Z)) \o ChowCl(e, g.f.bb, g.f.varb)
    [] OTHER -> <<>>
Stage(s, e) == IF Raised(e) THEN << Cl("call-returns", FALSE) >>
               ELSE IF e.cfg.est = "SUR" THEN SurStage(e, s) ELSE SlsStage(e, s)
TNext == Replay(Stage, 3)
================================================================================
