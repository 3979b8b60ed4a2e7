--------------------------------- MODULE Design --------------------------------
(* Symbolic design matrices.  A column is a record                              *)
(*   [src |-> "one" | "x" | "e" | "q" | "y", i |-> index in its source,         *)
(*    lag |-> power of W applied]                                               *)
(* The same symbolic columns give the numeric columns (Numeric) and the labels  *)
(* (Label) the user sees, so a coefficient and its label cannot drift apart in  *)
(* the specification.                                                           *)
EXTENDS Mat, FiniteSets, SequencesExt, TLC

Col(s, i, l) == [src |-> s, i |-> i, lag |-> l]
One == Col("one", 1, 0)
Block(s, ids, l) == [j \in 1..Len(ids) |-> Col(s, ids[j], l)]
Upto(n) == [j \in 1..n |-> j]
\* the indices of x that are kept: a constant column is removed
Kept(kx, const) == SelectSeq(Upto(kx), LAMBDA j: j \notin const)
\* the variables (positions among the kept ones) that are lagged
Lagged(kept, mask) == IF mask = <<>> THEN kept
                      ELSE LET p == SelectSeq(Upto(Len(kept)), LAMBDA j: mask[j] = 1)
                           IN [j \in 1..Len(p) |-> kept[p[j]]]
RECURSIVE LagCols(_, _, _, _)
\* lags from..to of the variables ids of source s, one block per lag order
LagCols(s, ids, from, to) == IF from > to THEN <<>>
                             ELSE Block(s, ids, from) \o LagCols(s, ids, from + 1, to)
XCols(kept, mask, slx) == <<One>> \o Block("x", kept, 0)
                          \o (IF slx > 0 THEN LagCols("x", Lagged(kept, mask), 1, slx) ELSE <<>>)

\* 2SLS: regressors and instruments as symbolic columns (d: [kept, mask, slx, ne, nq])
ZCols(d) == XCols(d.kept, d.mask, d.slx) \o Block("e", Upto(d.ne), 0)
HCols(d) == XCols(d.kept, d.mask, d.slx) \o Block("q", Upto(d.nq), 0)
\* spatial lag model: Wy joins the regressors, W-lags join the instruments.  The
\* x block starts one lag above the lags of x that are regressors.
Wy == Col("y", 1, 1)
RECURSIVE SpInst(_, _, _)
SpInst(d, p, wl) == IF p > wl THEN <<>>
                    ELSE Block("x", d.kept, d.slx + p)
                         \o (IF d.lagq = 1 THEN Block("q", Upto(d.nq), p) ELSE <<>>)
                         \o SpInst(d, p + 1, wl)
ZLag(d) == ZCols(d) \o <<Wy>>
HLag(d) == HCols(d) \o SpInst(d, 1, d.wl)

LagPre(l) == CASE l = 0 -> "" [] l = 1 -> "W_" [] OTHER -> "W" \o ToString(l) \o "_"
\* nm: record of label sequences per source
Label(c, nm) == IF c.src = "one" THEN "CONSTANT"
                ELSE LagPre(c.lag) \o (CASE c.src = "x" -> nm.x[c.i] [] c.src = "e" -> nm.e[c.i]
                                         [] c.src = "q" -> nm.q[c.i] [] OTHER -> nm.y)
Labels(cs, nm) == [j \in 1..Len(cs) |-> Label(cs[j], nm)]

\* d: record of matrices per source, W the weights matrix
NumCol(c, d, W, n) ==
  IF c.src = "one" THEN Fill(n, 1, 1)
  ELSE LET base == CASE c.src = "x" -> ColsOf(d.x, <<c.i>>) [] c.src = "e" -> ColsOf(d.e, <<c.i>>)
                     [] c.src = "q" -> ColsOf(d.q, <<c.i>>) [] OTHER -> d.y
       IN FoldLeft(LAMBDA acc, j: W ** acc, base, Upto(c.lag))
Numeric(cs, d, W, n) == HCat([j \in 1..Len(cs) |-> NumCol(cs[j], d, W, n)])

DefaultNames(p, k) == [j \in 1..k |-> p \o ToString(j)]
================================================================================
