----------------------------------- MODULE C31 -----------------------------------
(* Recorded histories of lazy attributes against the cells of Lazy, and the sparse  *)
(* and dense helper functions against dense algebra.                                *)
EXTENDS Lazy, Conf
Tol == 9
\* Candidate values of a cell.  The constructor may have read it already, so an
\* attribute first read after another one was set may hold the value from before.
Empty(c) == [p \in Cells(c) |-> <<>>]
Values(ce) == [p \in {q \in DOMAIN ce : Len(ce[q]) > 0} |-> ce[p][1]]
\* one candidate for every choice of the values of the cells p needs
RECURSIVE Cand(_, _, _, _)
Cand(c, ce, p, d) ==
  IF Len(ce[p]) > 0 THEN ce[p]
  ELSE LET ds == DepsOf(c, p)
           ch == FoldLeft(LAMBDA acc, q: FoldLeft(LAMBDA a2, f: a2 \o [j \in 1..Len(Cand(c, ce, q, d)) |-> (q :> Cand(c, ce, q, d)[j]) @@ f], <<>>, acc), << [z \in {} |-> 0] >>, ds)
           ch0 == FoldLeft(LAMBDA acc, q: FoldLeft(LAMBDA a2, f: a2 \o [j \in 1..Len(Cand(c, Empty(c), q, d)) |-> (q :> Cand(c, Empty(c), q, d)[j]) @@ f], <<>>, acc), << [z \in {} |-> 0] >>, ds)
           all == IF \E q \in ToSet(ds) : Len(ce[q]) > 0 THEN ch \o ch0 ELSE ch
       IN [j \in 1..Len(all) |-> Def(c, p, all[j], d)]
Near(a, b) == Rows(a) = Rows(b) /\ Cols(a) = Cols(b) /\ (CloseD(a, b, Tol) \/ Within(a, b, Dec("1e-9") ** MaxAll(MAbs(b)) ++ Dec("1e-12")))
\* outcome of the history: the cells, and whether every reading was explained
Run(e) ==
  LET c == e.cfg.cls  d == e.in IN
  FoldLeft(LAMBDA st, o:
     IF o.k = "set" THEN [st EXCEPT !.ce[o.p] = <<o.v>>]
     ELSE LET cs == Cand(c, st.ce, o.p, d)  hit == SelectSeq(cs, LAMBDA v: Near(o.v, v)) IN
          [ce |-> [st.ce EXCEPT ![o.p] = <<o.v>>], ok |-> IF Len(hit) > 0 THEN st.ok ELSE Append(st.ok, o.p)],
     [ce |-> Empty(c), ok |-> <<>>], e.obs.ops)
HistCl(e) == IF Raised(e) THEN << Cl("attributes-readable", FALSE) >> ELSE LET r == Run(e) IN << Cl("attributes-follow-their-definition." \o (IF r.ok = <<>> THEN "" ELSE r.ok[1]), r.ok = <<>>) >>

\* storage the helpers take: products of anything, elementwise products of two of a kind,
\* stacking with at least one csr or all dense, broadcasting csr or all dense
SparseK(k) == k \in {"csr", "csc"}
Takes(f, a, b) ==
  CASE f = "spdot" -> TRUE
    [] f = "spmultiply" -> SparseK(a) = SparseK(b)
    [] f = "sphstack" -> (a = "dense" /\ b = "dense") \/ a = "csr" \/ b = "csr"
    [] OTHER -> b = "dense" /\ a \in {"dense", "csr"}
Want(e) ==
  LET a == e.in.a  b == e.in.b  f == e.cfg.f IN
  CASE f = "spdot" -> a ** b
    [] f = "spmultiply" -> a (.) b
    [] f = "sphstack" -> HCat(<<a, b>>)
    [] f = "spbroadcast" -> a (.) b
    [] f = "spmin" -> MinAll(a)
    [] f = "spmax" -> MaxAll(a)
    [] f = "splogdet" -> LogDet(a)
    [] f = "spinv" -> Inv(a)
    [] f = "spfill_diagonal" -> a ++ Diag(Fill(Rows(a), 1, 1) (.) (e.in.val -- DiagOf(a)))
    [] OTHER -> a
\* a dense result was asked for, or both arguments are dense
Dense(e) == CASE e.cfg.f \in {"spdot", "spmultiply", "sphstack", "spbroadcast"} -> (e.cfg.a = "dense" /\ e.cfg.b = "dense") \/ e.cfg.out = 1
              [] e.cfg.f = "spfill_diagonal" -> e.cfg.a = "dense"
              [] OTHER -> FALSE
HelpCl(e) ==
  IF "b" \in DOMAIN e.cfg /\ ~Takes(e.cfg.f, e.cfg.a, e.cfg.b) THEN
     << Cl("refused-or-right." \o e.cfg.f, Raised(e) \/ Near(e.obs.v, Want(e))) >>
  ELSE IF Raised(e) THEN << Cl("accepts." \o e.cfg.f, FALSE) >>
  ELSE IF e.cfg.f = "spisfinite" THEN << Cl("spisfinite", Same(e.obs.finite, e.in.finite)) >>
  ELSE << Cl("dense-algebra." \o e.cfg.f, Near(e.obs.v, Want(e))),
          Cl("storage." \o e.cfg.f, Dense(e) => Same(e.obs.storage, "ndarray")) >>
SparseX == {"OLS", "TSLS", "GM_Lag", "GM_Error", "GM_Error_Het", "GM_Error_Hom", "GM_Endog_Error", "GM_Endog_Error_Het", "GM_Endog_Error_Hom", "GM_Combo", "GM_Combo_Het", "GM_Combo_Hom", "ML_Lag"}
SparseCl(e) ==
  LET must == e.cfg.est \in SparseX /\ e.cfg.slx = 0 /\ e.cfg.regi = 0  k == IF e.cfg.est = "ML_Lag" \/ e.cfg.opt = 1 THEN 5 ELSE 9 IN
  IF Raised(e) THEN << Cl("sparse-x.accepted", ~must) >>
  ELSE << Cl("sparse-x.betas", CloseD(e.obs.betas, e.obs.betas0, k)), Cl("sparse-x.vm", CloseVm(e.obs.vm, e.obs.vm0, k)), Cl("sparse-x.u", Within(e.obs.u, e.obs.u0, Dec("1e-5") ** MaxAll(MAbs(e.obs.u0)))) >>
Stage(s, e) == IF s > 1 THEN <<>> ELSE CASE e.op = "history" -> HistCl(e) [] e.op = "helper" -> HelpCl(e) [] OTHER -> SparseCl(e)
TNext == Replay(Stage, 1)
================================================================================
