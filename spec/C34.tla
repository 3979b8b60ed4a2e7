----------------------------------- MODULE C34 -----------------------------------
(* Printed reports of systems of equations and of panels, against the attributes of  *)
(* the fit (which other properties decide).                                          *)
EXTENDS Sur, Tab
HalfUnit(d) == Rat(506, 1000) // (10 ** d)
\* a printed number with so many decimals, or exactly equal
Shown(a, b, d) == Within(a, b, HalfUnit(d) ++ (Dec("0.000000000001") ** MAbs(b)))
TOk(r, t) == SeqLen(t) = 3 /\ Shown(r.w, t[1], 3) /\ CloseD(t[2], r.df, 9) /\ Shown(r.p, t[3], 4)
Bag(s, t) == SeqLen(s) = Len(t) /\ ToSet(s) = ToSet(t)
\* exactly one row of a table bears the name, with this test
Line(rows, nm, t) == LET f == SelectSeq(rows, LAMBDA r: r.name = nm) IN Len(f) = 1 /\ TOk(f[1], t)
NoLine(rows, nm) == \A j \in 1..Len(rows) : rows[j].name # nm
LineIf(rows, nm, c, t) == IF c THEN Line(rows, nm, t) ELSE NoLine(rows, nm)
None(t) == Same(t, "none") \/ Same(t, "absent")
EqCl(e, q) ==
  LET c == e.cfg  o == e.obs  p == o.rep.eqs[q]  z == Zl(e, q)  y == e.in.y[q]  n == Rows(y)  mu == Mean(y)
      ord == RowPos(c.kx[q], c.ke[q], c.nr, c.wy)
      nm == o.name_bigX[q] \o (IF c.est \in {"ThreeSLS", "SURlagIV"} THEN o.name_bigyend[q] ELSE <<>>)
      lam == c.est \in {"SURerrorGM", "SURerrorML"}
      linf == c.est = "SURerrorML" /\ c.vm = 1 IN
  << Cl("equation", p.eq = q /\ Same(p.dep, e.in.name_y[q])),
     Cl("equation-size", p.k = Len(z) /\ p.df = n - Len(z)),
     Cl("equation-mean", Shown(p.mean, mu, 4)),
     Cl("equation-spread", LET ss == SumSq(y -- mu) IN Shown(p.sd, Sqrt(ss // n), 4) \/ Shown(p.sd, Sqrt(ss // (n - 1)), 4)),
     Cl("coefficient-rows", Same(p.names, [j \in 1..Len(ord) |-> nm[ord[j]]])),
     Cl("coefficient-numbers", Shown(VCat(p.vals), RowsOf(HCat(<<o.b[q], o.inf[q]>>), ord), 7)),
     Cl("lambda-row", IF ~lam THEN SeqLen(p.lam) = 0
                      ELSE SeqLen(p.lam) = 1 /\ Shown(p.lam[1], IF linf THEN HCat(<<RowsOf(o.lamsur, <<q>>), RowsOf(o.lamsetp, <<q>>)>>) ELSE RowsOf(o.lamsur, <<q>>), 7)),
     Cl("instruments", IF c.est \in {"ThreeSLS", "SURlagIV"} THEN Bag(p.inst, o.inst[q]) /\ Bag(p.end, o.end[q]) ELSE SeqLen(p.inst) = 0 /\ SeqLen(p.end) = 0),
     Cl("regimes-variable", p.regimes = c.rname) >>
WithinEqCl(e, q) ==
  IF e.cfg.nr = 0 THEN << Cl("within-absent", SeqLen(e.obs.rep.eqs[q].chow) = 0) >>
  ELSE LET z == Zl(e, q)  T == Tested(z)  p == e.obs.rep.eqs[q].chow  h == e.obs.chow_regimes[q]
           nm(v) == IF v.s = "x" /\ v.i = 1 THEN "CONSTANT" ELSE NmOf(e, [v EXCEPT !.r = 0], q)
           D(k) == <<h.regi[k][1], Rat(e.cfg.nr - 1, 1), h.regi[k][2]>> IN
    << Cl("within-rows", SeqLen(p) = Len(T) + 1),
       Cl("within-numbers", \A k \in 1..Len(T) : Line(p, nm(T[k]), D(k))),
       Cl("within-global", Line(p, "Global test", <<h.joint[1], Rat(Len(T) * (e.cfg.nr - 1), 1), h.joint[2]>>)) >>
BetweenOrd(e) ==
  LET c == e.cfg IN IF \A q \in 1..M(e) : c.kx[q] = c.kx[1] /\ c.ke[q] = c.ke[1] THEN RowPos(c.kx[1], c.ke[1], c.nr, c.wy) ELSE Nums(Len(Zl(e, 1)))
\* the label of a row lists the coefficient of each equation, cut where it is long
Labelled(e, r, k) ==
  LET nm(q) == NamesOf(e, Zl(e, q), q)[k]  L == Len(r.names) IN
  IF r.cut = 0 THEN Same(r.names, [q \in 1..M(e) |-> nm(q)])
  ELSE L <= M(e) /\ \A q \in 1..L : IF q < L THEN r.names[q] = nm(q) ELSE r.names[q] \in {"", ","} \/ StrHas(nm(q), r.names[q])
EndCl(e) ==
  LET c == e.cfg  o == e.obs  r == o.rep.end  d == M(e)
      ml == c.est = "SURerrorML"  sur == c.est = "SUR"
      lamrow == SelectSeq(r.between, LAMBDA b: b.name = "lambda")
      rows == SelectSeq(r.between, LAMBDA b: b.name # "lambda")
      ord == BetweenOrd(e) IN
  << Cl("lm-sigma", LineIf(r.tests, "LM test on Sigma", sur /\ c.nsd = 1, o.lmtest)),
     Cl("lr-sigma", LineIf(r.tests, "LR test on Sigma", (sur \/ ml) /\ c.nsd = 1, o.lrtest)),
     Cl("lr-lambda", LineIf(r.tests, "LR test on lambda", ml /\ c.spat = 1, o.likrlambda)),
     Cl("joint-lambda", LineIf(r.tests, "Joint significance (lambda)", ml /\ c.spat = 1 /\ c.vm = 1, o.joinlam)),
     Cl("joint-rho", LineIf(r.tests, "Joint significance (rho)", c.est = "SURlagIV" /\ c.spat = 1, o.joinrho)),
     Cl("lm-error", LineIf(r.lm, "Lagrange Multiplier (error)", sur /\ c.spat = 1, o.lmEtest)),
     Cl("lm-lag", LineIf(r.lm, "Lagrange Multiplier (lag)", sur /\ c.spat = 1, o.lmlagtest)),
     Cl("between-rows", Len(rows) = (IF None(o.surchow) \/ c.nsd = 0 THEN 0 ELSE SeqLen(o.surchow))),
     Cl("between-labels", \A j \in 1..Len(rows) : Labelled(e, rows[j], ord[j])),
     Cl("between-numbers", \A j \in 1..Len(rows) : TOk(rows[j], o.surchow[ord[j]])),
     Cl("between-lambda", IF None(o.lamtest) \/ c.spat = 0 THEN Len(lamrow) = 0
                          ELSE (None(o.surchow) /\ Len(lamrow) = 0) \/ (Len(lamrow) = 1 /\ TOk(lamrow[1], o.lamtest))),
     Cl("correlations", Shown(r.corr, o.corr, 6)),
     Cl("correlation-names", Same(r.corr_names, [q \in 1..d |-> "EQUATION " \o ToString(q)])) >>
TopCl(e) ==
  LET c == e.cfg  o == e.obs  t == o.rep.top IN
  << Cl("equations", t.n_eq = M(e) /\ SeqLen(o.rep.eqs) = M(e)), Cl("observations", t.n = Rows(e.in.y[1])),
     Cl("log-likelihood", c.est \notin {"SUR", "SURerrorML"} \/ Shown(t.llik, o.llik, 3)),
     Cl("iterations", c.est # "SUR" \/ CloseD(o.niter, t.niter, 9)),
     Cl("error-likelihoods", c.est # "SURerrorML" \/ (Shown(t.errllik, o.errllik, 3) /\ Shown(t.surerrllik, o.surerrllik, 3))) >>
\* -------------------------------------------------------------------- panels
PanelCl(e) ==
  LET o == e.obs  d == o.dec  L == Len(o.names)  s == o.sec
      want(j) == IF o.inf[j] = 1 THEN HCat(<<RowsOf(o.betas, <<j>>), RowsOf(o.se, <<j>>), RowsOf(o.stat, <<j>>)>>) ELSE RowsOf(o.betas, <<j>>) IN
  << Cl("one-equation", o.count = 1), Cl("panel-rows", Same(o.rows, o.names) /\ L = Rows(o.betas)),
     Cl("panel-numbers", SeqLen(o.vals) = L /\ \A j \in 1..L : Shown(o.vals[j], want(j), d)),
     Cl("panel-size", o.head.n = o.size.n /\ o.head.k = o.size.k /\ o.head.df = o.size.n - o.size.k),
     Cl("panel-covariance", IF e.cfg.vm = 0 THEN Same(s.vm, "absent") ELSE Shown(s.vm, o.vm, 6) /\ s.vm_names = FoldLeft(LAMBDA a, b: a \o b, "", o.sq)),
     Cl("panel-tests", SeqLen(o.tests) = SeqLen(o.bsk) /\ \A j \in 1..SeqLen(o.bsk) : \E k \in 1..SeqLen(o.tests) :
          /\ o.tests[k].name = o.bsk[j].name /\ o.tests[k].df = o.bsk[j].df /\ Shown(o.tests[k].w, o.bsk[j].w, 4) /\ Shown(o.tests[k].p, o.bsk[j].p, 5)),
     Cl("panel-components", \A j \in 1..SeqLen(o.comps) : IF Same(o.comps[j].value, "absent") THEN Same(o.comps[j].shown, "absent") ELSE Shown(o.comps[j].shown, o.comps[j].value, 4)),
     Cl("panel-impacts", SeqLen(s.impacts) = o.tables) >>
  \o [j \in 1..Len(o.pairs) |-> Cl("panel " \o o.pairs[j].what, Within(o.pairs[j].shown, o.pairs[j].value, o.pairs[j].tol))]
Panel(e) == StrHas(e.op, "panel ")
Stage(s, e) ==
  IF Raised(e) THEN << Cl("call-returns", FALSE) >>
  ELSE IF Panel(e) THEN IF s = 1 THEN PanelCl(e) ELSE <<>>
  ELSE CASE s = 1 -> TopCl(e) \o Flat([q \in 1..M(e) |-> EqCl(e, q)])
         [] s = 2 -> EndCl(e) \o Flat([q \in 1..M(e) |-> WithinEqCl(e, q)])
         [] OTHER -> <<>>
TNext == Replay(Stage, 2)
================================================================================
