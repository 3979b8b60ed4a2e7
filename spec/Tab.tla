----------------------------------- MODULE Tab ----------------------------------
(* The coefficient table.                                                         *)
EXTENDS Conf, Reg
Table(t, labels, b, vm, stat, d) == <<
  Cl("output.names", Same(Fld(t, "var_names"), labels)),
  Cl("output.coefficients", CloseD(Fld(t, "coefficients"), b, d)),
  Cl("output.std_err", CloseD(Fld(t, "std_err"), SE(vm), d - 1)),
  Cl("output.stat", CloseD(Fld(t, "zt_stat"), ColsOf(stat, <<1>>), d - 1)),
  Cl("output.prob", CloseD(Fld(t, "prob"), ColsOf(stat, <<2>>), d - 2)) >>
\* rows without inference (kp98's lambda): the last one of the sequence
TableNoInf(t, labels, b, vm, stat, d) ==
  LET k == Rows(vm)  rows(c) == RowsOf(c, NumSeq(1, k)) IN <<
  Cl("output.names", Same(Fld(t, "var_names"), labels)),
  Cl("output.coefficients", CloseD(Fld(t, "coefficients"), b, d)),
  Cl("output.std_err", CloseD(rows(t.std_err), SE(vm), d - 1)),
  Cl("output.stat", CloseD(rows(t.zt_stat), ColsOf(stat, <<1>>), d - 1)),
  Cl("output.prob", CloseD(rows(t.prob), ColsOf(stat, <<2>>), d - 2)),
  Cl("output.no-inference-for-lambda", Same(t.std_err_nan, [j \in 1..(k + 1) |-> IF j = k + 1 THEN 1 ELSE 0])) >>
\* a table whose rows come in any order, each with its own numbers
Find(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x
RTable(t, labels, b, se, stat, d) ==
  LET nm == Fld(t, "var_names")
      ok == SeqLen(nm) = Len(labels) /\ ToSet(nm) = ToSet(labels)
  IN << Cl("output.names", ok) >> \o
     (IF ~ok THEN <<>> ELSE
      LET p == [j \in 1..Len(nm) |-> Find(labels, nm[j])] IN <<
        Cl("output.coefficients", CloseD(Fld(t, "coefficients"), RowsOf(b, p), d)),
        Cl("output.std_err", CloseD(Fld(t, "std_err"), RowsOf(se, p), d - 1)),
        Cl("output.stat", CloseD(Fld(t, "zt_stat"), RowsOf(ColsOf(stat, <<1>>), p), d - 1)),
        Cl("output.prob", CloseD(Fld(t, "prob"), RowsOf(ColsOf(stat, <<2>>), p), d - 2)) >>)
\* kp98's lambda row(s) have no inference: se and stat of the labels that have it, in order
RTableNoInf(t, labels, b, se, stat, d) ==
  LET nm == Fld(t, "var_names")
      lam(x) == StrHas(x, "lambda")
      ok == SeqLen(nm) = Len(labels) /\ ToSet(nm) = ToSet(labels)
  IN << Cl("output.names", ok) >> \o
     (IF ~ok THEN <<>> ELSE
      LET p == [j \in 1..Len(nm) |-> Find(labels, nm[j])]
          w == SelectSeq(labels, LAMBDA x: ~lam(x))
          rows == SelectSeq(NumSeq(1, Len(nm)), LAMBDA j: ~lam(nm[j]))
          q == [j \in 1..Len(rows) |-> Find(w, nm[rows[j]])]
          at(c) == RowsOf(c, rows) IN <<
        Cl("output.coefficients", CloseD(Fld(t, "coefficients"), RowsOf(b, p), d)),
        Cl("output.std_err", CloseD(at(t.std_err), RowsOf(se, q), d - 1)),
        Cl("output.stat", CloseD(at(t.zt_stat), RowsOf(ColsOf(stat, <<1>>), q), d - 1)),
        Cl("output.prob", CloseD(at(t.prob), RowsOf(ColsOf(stat, <<2>>), q), d - 2)),
        Cl("output.no-inference-for-lambda", Same(t.std_err_nan, [j \in 1..Len(nm) |-> IF lam(nm[j]) THEN 1 ELSE 0])) >>)
Corr2(a, b) == LET da == a -- Mean(a)  db == b -- Mean(b) IN Sq(SumAll(da (.) db)) // (SumSq(da) ** SumSq(db))
================================================================================
