---------------------------------- MODULE Panel ---------------------------------
(* Balanced panels in stacked form (periods within which units keep their order). *)
EXTENDS Tab
Nn(e) == Rows(e.in.W)
Tt(e) == e.cfg.T
Block(e) == Kron(Ident(Tt(e)), e.in.W)
WN(e, m) == Block(e) ** m
\* columns that are spatially lagged
Lagged(e) == SelectSeq(NumSeq(1, e.cfg.kx), LAMBDA j: e.in.lagged[j] = 1)
RECURSIVE LagN(_, _, _)
LagN(e, x, p) == LET l == WN(e, x) IN IF p = 1 THEN l ELSE HCat(<<l, LagN(e, l, p - 1)>>)
Design(e, const) == LET x == e.in.x
                        a == IF const THEN HCat(<<Fill(Rows(x), 1, 1), x>>) ELSE x IN
  IF e.cfg.slx = 0 THEN a ELSE HCat(<<a, LagN(e, ColsOf(x, Lagged(e)), e.cfg.slx)>>)
Pre(p) == CASE p = 1 -> "W_" [] OTHER -> "W2_"
Labels(e, const) ==
  LET l == Lagged(e)  nm == e.in.name_x  m == Len(l) IN
  (IF const THEN <<"CONSTANT">> ELSE <<>>) \o [j \in 1..e.cfg.kx |-> nm[j]]
  \o [j \in 1..(e.cfg.slx * m) |-> Pre(((j - 1) \div m) + 1) \o nm[l[((j - 1) % m) + 1]]]
\* mean over periods by unit, and the same spread over the periods
AvgOp(e) == Kron(Tr(Ones(Tt(e))), Ident(Nn(e))) // Tt(e)
Means(e, m) == AvgOp(e) ** m
Spread(e, m) == VCat([t \in 1..Tt(e) |-> m])
Between(e, m) == Spread(e, Means(e, m))
Demean(e, m, phi) == m -- (1 -- phi) ** Between(e, m)
Chi1(x) == Chi2Sf(x, 1)
\* a table some of whose last rows have no inference
TableK(t, labels, b, vm, stat, d) ==
  LET k == Rows(vm)  rows(c) == RowsOf(c, NumSeq(1, k)) IN <<
  Cl("output.names", Same(Fld(t, "var_names"), labels)),
  Cl("output.coefficients", CloseD(Fld(t, "coefficients"), b, d)),
  Cl("output.std_err", CloseD(rows(t.std_err), SE(vm), d - 1)),
  Cl("output.stat", CloseD(rows(t.zt_stat), ColsOf(stat, <<1>>), d - 1)),
  Cl("output.prob", CloseD(rows(t.prob), ColsOf(stat, <<2>>), d - 2)) >>
\* the same panel in another layout gives the same fit
LayoutCl(e) == LET d == IF e.cfg.est \in {"PooledOLS", "PanelFE", "PanelRE"} THEN 9 ELSE IF e.cfg.est \in {"ML_LagRE", "ML_ErrorRE"} THEN 3 ELSE 4 IN << Cl("layouts-agree", Same(e.alt.exc, "null") /\ Same(e.alt.names, e.obs.table.var_names)
                     /\ CloseD(e.alt.betas, e.obs.betas, d) /\ CloseD(e.alt.u, e.obs.u, d) /\ CloseVm(e.alt.vm, e.obs.vm, d - 1)) >>
================================================================================
