---------------------------------- MODULE Regi ---------------------------------
(* Regime designs.  A base column (Design) that varies becomes one column per    *)
(* regime, zero outside it; a column that does not vary stays one column.        *)
(*   [c |-> base column, r |-> regime number, 0 = common to all regimes]         *)
(* Coefficients are ordered by regime, the common ones last.                     *)
EXTENDS Design
RC(c, r) == [c |-> c, r |-> r]
Vary(cs, vs) == LET p == SelectSeq(Upto(Len(cs)), LAMBDA j: vs[j] = 1) IN [j \in 1..Len(p) |-> cs[p[j]]]
Fixed(cs, vs) == LET p == SelectSeq(Upto(Len(cs)), LAMBDA j: vs[j] = 0) IN [j \in 1..Len(p) |-> cs[p[j]]]
OfRegime(cs, vs, r) == LET w == Vary(cs, vs) IN [j \in 1..Len(w) |-> RC(w[j], r)]
RBlock(cs, vs, nr) ==
  FoldLeft(LAMBDA acc, r: acc \o OfRegime(cs, vs, r), <<>>, Upto(nr))
  \o (LET g == Fixed(cs, vs) IN [j \in 1..Len(g) |-> RC(g[j], 0)])
AllVary(cs) == [j \in 1..Len(cs) |-> 1]

\* ri: regime number of each observation; indicator columns
Indic(ri, nr) == HCat([r \in 1..nr |-> FromSeq([i \in 1..Len(ri) |-> IF ri[i] = r THEN 1 ELSE 0])])
RegCol(rc, d, W, D) == LET v == NumCol(rc.c, d, W, Rows(D)) IN IF rc.r = 0 THEN v ELSE v (.) ColsOf(D, <<rc.r>>)
RegMat(rcs, d, W, D) == HCat([j \in 1..Len(rcs) |-> RegCol(rcs[j], d, W, D)])
\* labs: labels of the regimes in their order
RegLabel(rc, nm, labs) == (IF rc.r = 0 THEN "_Global_" ELSE labs[rc.r] \o "_") \o Label(rc.c, nm)
RegLabels(rcs, nm, labs) == [j \in 1..Len(rcs) |-> RegLabel(rcs[j], nm, labs)]
RegOf(rcs, labs) == [j \in 1..Len(rcs) |-> IF rcs[j].r = 0 THEN "_Global" ELSE labs[rcs[j].r]]

Members(ri, r) == SelectSeq(Upto(Len(ri)), LAMBDA i: ri[i] = r)
\* observations of regime r of every matrix of the record of sources
SubSrc(d, m) == [f \in DOMAIN d |-> IF IsMat(d[f]) THEN RowsOf(d[f], m) ELSE d[f]]
\* W0 (not standardised) restricted to the pairs in the same regime; std: rows scaled to sum 1
SameReg(D) == D ** Tr(D)
RowStd(W) == LET s == RowSums(W) IN W // (s ++ (1 -- MSign(s)))
SubW(W0, m, std) == LET w == ColsOf(RowsOf(W0, m), m) IN IF std = 1 THEN RowStd(w) ELSE w
BlockW(W0, D, std) == LET w == W0 (.) SameReg(D) IN IF std = 1 THEN RowStd(w) ELSE w
RECURSIVE BDiag(_)
\* block diagonal matrix of a sequence of square matrices
BDiag(s) == IF Len(s) = 1 THEN s[1]
            ELSE LET a == s[1]  b == BDiag(Tail(s)) IN
                 VCat(<<HCat(<<a, Fill(Rows(a), Cols(b), 0)>>), HCat(<<Fill(Rows(b), Cols(a), 0), b>>)>>)
\* stack of per-regime vectors put back in the observations' order
Scatter(parts, ri, nr) ==
  LET n == Len(ri)
      all == VCat(parts)
      off(r) == FoldLeft(LAMBDA a, q: a + Rows(parts[q]), 0, Upto(r - 1))
      rank(i) == Cardinality({j \in 1..i : ri[j] = ri[i]})
  IN RowsOf(all, [i \in 1..n |-> off(ri[i]) + rank(i)])
================================================================================
