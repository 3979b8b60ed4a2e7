------------------------------------ MODULE C32 ------------------------------------
(* Endogenous regimes: the partition is Skater's for the standardised variables, its   *)
(* number the one asked for or chosen by the stopping rule, and the model reported is   *)
(* the regime model of that partition.                                                   *)
EXTENDS Skater, Mojena
Std(X) == LET C == X -- (ColSums(X) // Rows(X)) IN C // Sqrt(ColSums(C (.) C) // Rows(X))
Mode(c) == CASE c.cls = "OLS" -> "ols" [] c.cls = "TSLS" -> "tsls" [] OTHER -> "lag"
Filled(e) == LET D == Std(IF e.cfg.cls = "TSLS" THEN HCat(<<e.in.x, e.in.yend>>) ELSE e.in.x) IN
  [cfg |-> [mode |-> Mode(e.cfg), metric |-> "eucl", center |-> "mean", red |-> "sum", quorum |-> e.in.quorum], in |-> [x \in DOMAIN e.in \cup {"data"} |-> IF x = "data" THEN D ELSE e.in[x]]]
\* minimum spanning forest (distances of continuous data differ): Kruskal
Forest(f) ==
  LET es == SetToSeq(Pairs(f.in.adj))  d == Dists(f, es)
      ord == SetToSortSeq(1..Len(es), LAMBDA a, b: Lt(At(d, a, 1), At(d, b, 1)) \/ (a < b /\ ~Lt(At(d, b, 1), At(d, a, 1))))
  IN FoldLeft(LAMBDA F, j: IF es[j][2] \in Grow(F, {es[j][1]}) THEN F ELSE F \cup {es[j]}, {}, ord)
Eq(a, b) == IF a.kind # b.kind THEN FALSE ELSE IF a.kind = "matrix" THEN CloseD(a.value, b.value, 9) ELSE Same(a.value, b.value)
IsFinite(v) == Le(v, Dec("1e300"))
ModelCl(e) ==
  LET a == e.obs.a  b == e.obs.b IN
  << Cl("model-attributes", ToSet(b.names) \subseteq ToSet(a.names)) >> \o
  (IF ~(ToSet(b.names) \subseteq ToSet(a.names)) THEN <<>> ELSE [j \in 1..Len(b.names) |-> Cl("model." \o b.names[j], Eq(a[b.names[j]], b[b.names[j]]))])
FitCl(e) ==
  LET o == e.obs  f == Filled(e)  n0 == Cardinality(PartsOf(Pairs(e.in.adj), 1..e.in.n))
      final == ByLabel(o.clusters)
      target == IF e.cfg.k = 0 THEN 0 ELSE IF n0 > 1 THEN e.cfg.k + n0 ELSE e.cfg.k
      sum == TotalOf(f, final)
      \* a disconnected map that admits no cut is reported as it is, with no score
      unscored == Cardinality(final) = n0 /\ n0 > 1 /\ ~IsFinite(o.score) IN
  << Cl("quorum", \A P \in final : Enough(f, P)), Cl("score", unscored \/ Within(o.score, sum, Tol(e))), Cl("score-printed", unscored \/ Within(o.printed, sum, Dec("0.006"))), Cl("weights-kept", Same(o.wkept, TRUE)), Cl("data-kept", Same(o.kept, TRUE)),
     Cl("parts-connected", \A P \in final : Cardinality(PartsOf({x \in Pairs(e.in.adj) : x[1] \in P /\ x[2] \in P}, P)) = 1) >> \o ModelCl(e) \o
  (IF e.cfg.trace = 0 THEN <<>> ELSE
   LET st == o.steps  F0 == Forest(f)
       fr[j \in 0..Len(st)] == IF j = 0 THEN F0 ELSE fr[j - 1] \ {Edge(st[j])}
       \* as many scores as cuts, one more part by each
       scores == [j \in 1..Len(st) |-> st[j].score] \o <<>>
       most == IF e.cfg.k > 0 THEN target ELSE (7 * e.in.n) \div (10 * e.in.quorum)
       all == Cardinality(PartsOf(fr[Len(st)], 1..e.in.n))
       nums == IF e.cfg.k > 0 THEN {Len(st)} ELSE {c - 1 : c \in Chosen(scores, 0)} IN
   << Cl("ssr", Len(o.ssr) = Len(st) /\ \A j \in 1..Len(st) : CloseD(o.ssr[j], st[j].score, 12)),
      Cl("cuts-count", all = n0 + Len(st) /\ (all = most \/ (all < most /\ AllowedIn(f, fr[Len(st)]) = {}))),
      Cl("number-of-regimes", (\E m \in nums : m \in 1..Len(st) /\ final = PartsOf(fr[m], 1..e.in.n) /\ CloseD(o.score, st[m].score, 12)) \/ (Len(st) = 0 /\ unscored)) >> \o
   FoldLeft(LAMBDA a, j: a \o StepCl(f, fr[j - 1], Edge(st[j]), st[j]), <<>>, [j \in 1..Len(st) |-> j] \o <<>>))
RaisedCl(e) ==
  LET g == e.cfg  V == 1..e.in.n  P0 == PartsOf(Pairs(e.in.adj), V)  f == Filled(e) IN
  << Cl("refusal." \o e.exc.msg, CASE StrHas(e.exc.msg, "is not compatible with regimes estimation") -> g.k = 0 /\ 7 * e.in.n < 20 * e.in.quorum
                     [] StrHas(e.exc.msg, "number of clusters times the quorum") -> e.in.n <= g.k * e.in.quorum
                     [] StrHas(e.exc.msg, "Islands must be larger") -> Cardinality(P0) > 1 /\ \E P \in P0 : Cardinality(P) < e.in.quorum
                     [] StrHas(e.exc.msg, "score increased") -> g.cls # "OLS"
                     [] StrHas(e.exc.msg, "regimes") -> Cardinality(P0) = 1 /\ AllowedIn(f, Forest(f)) = {} [] OTHER -> FALSE) >>
Stage(s, e) ==
  IF s > 1 THEN <<>> ELSE
  IF e.op = "optim" THEN IF Raised(e) THEN << Cl("optim.raised", FALSE) >> ELSE << Cl("optim.number", e.obs.k \in Chosen(e.in.s, e.in.w)) >>
  ELSE IF Raised(e) THEN RaisedCl(e) ELSE << Cl("accepted", e.in.n > e.cfg.k * e.in.quorum) >> \o FitCl(e)
TNext == Replay(Stage, 1)
================================================================================
