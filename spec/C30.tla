----------------------------------- MODULE C30 -----------------------------------
(* Pairs of calls: the second has its observations, variables, regimes, identifiers *)
(* or units changed.  e.in.t is the reordering, rows the old observation at each    *)
(* new position, sx, se the units of the new variables, sy that of y.               *)
EXTENDS Equiv, Reg, Conf
Kp98(c) == c.est \in {"GM_Error", "GM_Endog_Error", "GM_Combo"}
Closed(c) == c.est \in {"OLS", "TSLS", "GM_Lag"}
Tol(c) == IF Closed(c) THEN Dec("0.000001") ELSE Dec("0.002")
Absent(m) == Rows(m) = -1
\* entries agree to tol of the largest
Near(a, b, tol) == IF Absent(a) \/ Absent(b) THEN Absent(a) /\ Absent(b)
                   ELSE Rows(a) = Rows(b) /\ Cols(a) = Cols(b) /\ Within(a, b, (tol ** (MaxAll(MAbs(b)) ++ Dec("1e-30"))))
Unit(e, rc) == CASE rc.c.src = "one" -> e.in.sy
                 [] rc.c.src = "x" -> e.in.sy // At(e.in.sx, rc.c.i, 1)
                 [] rc.c.src = "e" -> e.in.sy // At(e.in.se, rc.c.i, 1)
                 [] OTHER -> Rat(1, 1)
CoefCl(e) ==
  LET c == e.cfg  t == e.in.t  a == e.obs.a  b == e.obs.b  d == Act(c, t)
      new == Cols0(d)  p == Pos(c, t)
      nm == [x |-> e.in.name_x2, y |-> e.in.name_y, e |-> e.in.name_ye2, q |-> <<>>]
      nolam(l) == SelectSeq(Upto(Len(l)), LAMBDA j: l[j].c.src # "lambda")
      inf == IF Kp98(c) THEN nolam(new) ELSE Upto(Len(new))
      old == nolam(Cols0(c))
      \* positions of the old coefficients among those with a variance
      pv == [j \in 1..Len(inf) |-> IF Kp98(c) THEN Index(old, p[inf[j]]) ELSE p[inf[j]]] \o <<>>
      f == VCat([j \in 1..Len(new) |-> Unit(e, new[j])] \o <<>>)
      fi == RowsOf(f, inf)
      eb == RowsOf(a.betas, p) (.) f
      evm == RowsOf(ColsOf(a.vm, pv), pv) (.) (fi ** Tr(fi))
      se == SE(evm) ++ Dec("1e-30")
      shape == Rows(a.betas) = Len(new) /\ Rows(b.betas) = Len(new) /\ Rows(b.vm) = Len(inf) /\ Rows(a.vm) = Len(inf) IN
  << Cl("names", Same(b.names, LabelsOf(d, nm, e.in.labs))), Cl("shape", shape) >> \o
  (IF ~shape THEN <<>> ELSE <<
     Cl("betas", Within((RowsOf(b.betas, inf) -- RowsOf(eb, inf)) // se, Fill(Len(inf), 1, 0), Tol(c))),
     Cl("lambda", ~Kp98(c) \/ (LET l == SelectSeq(Upto(Len(new)), LAMBDA j: new[j].c.src = "lambda") IN Within(RowsOf(b.betas, l), RowsOf(eb, l), Dec("0.001")))),
     Cl("variance", LET s == se ** Tr(se) IN Within(b.vm // s, evm // s, IF Closed(c) THEN Dec("0.00001") ELSE Dec("0.01"))) >>)
PerObs == <<"u", "predy", "e_pred", "predy_e", "e_filtered">>
Same0 == <<"r2", "ar2", "pr2", "pr2_e", "f_stat", "ak_test", "cfh_test", "moran_res", "lm_lag", "lm_error", "rlm_lag", "rlm_error", "lm_sarma", "jb", "bp", "kb", "wh", "chow", "lm_wx", "lm_spdurbin", "dwh", "LR", "Pinkse_error", "KP_error", "PS_error", "predpc", "mcfadrho">>
RestCl(e) ==
  LET c == e.cfg  a == e.obs.a  b == e.obs.b
      up(m) == IF c.est = "Probit" THEN m ELSE e.in.sy ** m
      tol == IF Closed(c) THEN Dec("0.000001") ELSE Dec("0.001")
      ob(f) == IF Absent(a[f]) THEN Absent(b[f]) ELSE Rows(b[f]) = Rows(a[f]) /\ Near(b[f], up(RowsOf(a[f], e.in.rows)), tol)
      ll == IF Absent(a.logll) THEN a.logll ELSE a.logll -- (Rat(e.in.n, 1) ** (IF c.est = "Probit" THEN Rat(0, 1) ELSE LN(e.in.sy))) IN
  [j \in 1..Len(PerObs) |-> Cl(PerObs[j], ob(PerObs[j]))] \o
  [j \in 1..Len(Same0) |-> Cl(Same0[j], Near(b[Same0[j]], a[Same0[j]], IF Closed(c) THEN Dec("0.00001") ELSE Dec("0.01")))] \o
  << Cl("sig2", Near(b.sig2, IF Absent(a.sig2) THEN a.sig2 ELSE up(up(a.sig2)), tol)),
     Cl("utu", Near(b.utu, IF Absent(a.utu) THEN a.utu ELSE up(up(a.utu)), tol)),
     Cl("logll", Near(b.logll, ll, tol)) >>
\* models whose coefficients are identified by label: each label keeps its number
ByLabelCl(e) ==
  LET a == e.obs.a  b == e.obs.b  ok == Len(a.names) = Len(b.names) /\ ToSet(a.names) = ToSet(b.names) /\ Rows(a.betas) = Len(a.names) /\ Rows(b.betas) = Len(a.names)
      p == [j \in 1..Len(b.names) |-> Index(a.names, b.names[j])] \o <<>> IN
  << Cl("names", ok) >> \o
  (IF ~ok THEN <<>> ELSE
   LET q == SelectSeq(p, LAMBDA j: j <= Rows(a.vm))
       pv == IF Rows(a.vm) = Len(a.names) THEN p ELSE q
       evm == RowsOf(ColsOf(a.vm, pv), pv)  se == SE(evm) ++ Dec("1e-30")  k == Rows(a.vm)
       s == se ** Tr(se) IN
   << Cl("betas", IF k = Len(a.names) THEN Within((b.betas -- RowsOf(a.betas, p)) // se, Fill(k, 1, 0), e.in.tol) ELSE Near(b.betas, RowsOf(a.betas, p), e.in.tol)),
      Cl("variance", Rows(b.vm) = k /\ Within(b.vm // s, evm // s, 10 ** e.in.tol)) >>)
  \o [j \in 1..Len(a.obs) |-> Cl("observations", Near(b.obs[j], RowsOf(a.obs[j], e.in.rows), e.in.tol))]
  \o [j \in 1..Len(a.num) |-> Cl("statistics", Near(b.num[j], a.num[j], 10 ** e.in.tol))]
PowerSeries(x) == StrHas(x.msg, "power expansion")
Stage(s, e) ==
  IF Raised(e) THEN << Cl("no-exception", s > 1 \/ PowerSeries(e.exc)) >>
  ELSE IF ~Same(e.obs.exc2, "null") THEN << Cl("no-exception-when-reordered", s > 1 \/ PowerSeries(e.obs.exc2)) >>
  ELSE CASE e.op = "labels" -> (IF s = 1 THEN ByLabelCl(e) ELSE <<>>)
         [] s = 1 -> CoefCl(e) [] OTHER -> RestCl(e)
TNext == Replay(Stage, 2)
================================================================================
