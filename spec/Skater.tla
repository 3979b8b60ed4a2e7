---------------------------------- MODULE Skater ----------------------------------
(* Forests, parts, scores of parts and greedy cuts of recorded regionalisations.      *)
EXTENDS Conf, Reg
Pairs(l) == {<<l[j][1], l[j][2]>> : j \in 1..SeqLen(l)}
RECURSIVE Grow(_, _)
Grow(F, S) == LET T == S \cup {e[1] : e \in {x \in F : x[2] \in S}} \cup {e[2] : e \in {x \in F : x[1] \in S}} IN IF T = S THEN S ELSE Grow(F, T)
RECURSIVE PartsOf(_, _)
PartsOf(F, V) == IF V = {} THEN {} ELSE LET P == Grow(F, {CHOOSE v \in V : TRUE}) IN {P} \cup PartsOf(F, V \ P)
\* partition of 1..n given by a sequence of labels
ByLabel(l) == {{j \in 1..Len(l) : l[j] = v} : v \in ToSet(l)}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b: a < b)
Sel(A, P) == RowsOf(A, Sorted(P))
\* ---- distances
Pow2(e, A) == CASE e.cfg.metric = "eucl" -> RowSums(A (.) A) [] e.cfg.metric = "manh" -> RowSums(MAbs(A)) [] OTHER -> RowSums(A (.) A) // Cols(A)
Norms(e, A) == IF e.cfg.metric = "eucl" THEN Sqrt(Pow2(e, A)) ELSE Pow2(e, A)
Dists(e, l) == IF e.cfg.mode = "none" THEN Fill(Len(l), 1, 1)
               ELSE Norms(e, RowsOf(e.in.data, [j \in 1..Len(l) |-> l[j][1]] \o <<>>) -- RowsOf(e.in.data, [j \in 1..Len(l) |-> l[j][2]] \o <<>>))
\* ---- the score of a part; the reduction is over its members, and over the parts of the map
Red(e, v) == CASE e.cfg.red = "max" -> MaxAll(v) [] e.cfg.red = "mean" -> SumAll(v) // Rows(v) [] OTHER -> SumAll(v)
AttrScore(e, P) ==
  LET A == Sel(e.in.data, P)  n == Rows(A)
      c == IF e.cfg.center = "mean" THEN ColSums(A) // n ELSE HCat([j \in 1..Cols(A) |-> MaxAll(ColsOf(A, <<j>>))] \o <<>>)
  IN Red(e, Norms(e, A -- (Ones(n) ** c)))
Ssr(u) == SumSq(u)
OlsScore(e, P) == LET X == HCat(<<Ones(Cardinality(P)), Sel(e.in.x, P)>>)  y == Sel(e.in.y, P) IN Ssr(y -- (X ** Solve(Tr(X) ** X, Tr(X) ** y)))
Tsls(y, Z, H) == LET HtZ == Tr(H) ** Z  Hi == Solve(Tr(H) ** H, HCat(<<HtZ, Tr(H) ** y>>))  k == Cols(Z)
                     A == Tr(HtZ) ** ColsOf(Hi, [j \in 1..k |-> j] \o <<>>)  b == Tr(HtZ) ** ColsOf(Hi, <<k + 1>>)
                 IN Ssr(y -- (Z ** Solve(A, b)))
TslsScore(e, P) == LET X == HCat(<<Ones(Cardinality(P)), Sel(e.in.x, P)>>) IN Tsls(Sel(e.in.y, P), HCat(<<X, Sel(e.in.yend, P)>>), HCat(<<X, Sel(e.in.q, P)>>))
\* the lag is taken over the whole map, all coefficients vary by part
LagScore(e, P) == LET X == HCat(<<Ones(Cardinality(P)), Sel(e.in.x, P)>>)  W == e.in.W IN
                  Tsls(Sel(e.in.y, P), HCat(<<X, Sel(W ** e.in.y, P)>>), HCat(<<X, Sel(W ** e.in.x, P)>>))
PartScore(e, P) == CASE e.cfg.mode = "attr" -> AttrScore(e, P) [] e.cfg.mode = "none" -> Rat(0, 1) [] e.cfg.mode = "tsls" -> TslsScore(e, P)
                     [] e.cfg.mode = "lag" -> LagScore(e, P) [] OTHER -> OlsScore(e, P)
Sum(l) == FoldLeft(LAMBDA a, b: a ++ b, Rat(0, 1), l)
TotalOf(e, PP) == LET l == SetToSeq(PP) IN Red(e, FromSeq([j \in 1..Len(l) |-> PartScore(e, l[j])] \o <<>>))
Tol(e) == Dec("0.0000001") ** (1 ++ e.in.scale)
Enough(e, P) == Cardinality(P) >= e.cfg.quorum
\* ---- clauses
ForestCl(e, F0) ==
  LET n == e.in.n  V == 1..n  adj == Pairs(e.in.adj)  as == SetToSeq(adj)  d == Dists(e, as)
      dist == [j \in 1..Len(as) |-> At(d, j, 1)] \o <<>> IN
  << Cl("forest-in-graph", F0 \subseteq adj), Cl("forest-spans", PartsOf(F0, V) = PartsOf(adj, V)), Cl("forest-acyclic", Cardinality(F0) = n - Cardinality(PartsOf(adj, V))),
     Cl("forest-minimal", \A j \in 1..Len(as) : as[j] \in F0 =>
        LET side == Grow(F0 \ {as[j]}, {as[j][1]}) IN
        \A i \in 1..Len(as) : (as[i] \notin F0 /\ ((as[i][1] \in side) # (as[i][2] \in side))) => Le(dist[j], dist[i] ++ Tol(e))) >>
\* greedy step from forest F (parts PP) by cutting c, with the reported score
StepCl(e, F, c, st) ==
  LET V == 1..e.in.n  PP == PartsOf(F, V)  F2 == F \ {c}  base == [P \in PP |-> PartScore(e, P)]
      before == Sum([j \in 1..Cardinality(PP) |-> base[SetToSeq(PP)[j]]] \o <<>>)
      others(P) == LET l == SetToSeq(PP \ {P}) IN [j \in 1..Len(l) |-> base[l[j]]] \o <<>>
      split(f) == LET P == CHOOSE Q \in PP : f[1] \in Q  A == Grow(F \ {f}, {f[1]}) IN <<P, A, P \ A>>
      after(f) == LET s == split(f) IN
                  IF e.cfg.red = "sum" THEN (before -- base[s[1]]) ++ (PartScore(e, s[2]) ++ PartScore(e, s[3]))
                  ELSE Red(e, FromSeq(others(s[1]) \o <<PartScore(e, s[2]), PartScore(e, s[3])>>))
      allowed == {f \in F : LET s == split(f) IN Enough(e, s[2]) /\ Enough(e, s[3])}
      mine == after(c)
  IN << Cl("cut-in-forest", c \in F), Cl("cut-keeps-quorum", c \in allowed), Cl("labels", ByLabel(st.labels) = PartsOf(F2, V)),
        Cl("score", Within(st.score, mine, Tol(e))), Cl("greedy", c \in allowed => \A f \in allowed : Le(mine, after(f) ++ Tol(e))) >>
AllowedIn(e, F) == {f \in F : LET A == Grow(F \ {f}, {f[1]})  P == Grow(F, {f[1]}) IN Enough(e, A) /\ Enough(e, P \ A)}
Edge(st) == IF st.in_ < st.out THEN <<st.in_, st.out>> ELSE <<st.out, st.in_>>
================================================================================
