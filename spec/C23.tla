----------------------------------- MODULE C23 -----------------------------------
(* Recorded regionalisations: forest, cuts, partitions and scores.                   *)
EXTENDS Skater
FitCl(e) ==
  LET o == e.obs  g == e.cfg  V == 1..e.in.n  adj == Pairs(e.in.adj)  n0 == Cardinality(PartsOf(adj, V))
      F == Pairs(o.forest)  last == PartsOf(F, V)
      target == IF n0 > 1 /\ g.isl = "increase" THEN g.k + n0 ELSE g.k
      cuts == IF g.trace = 1 THEN SelectSeq(o.steps, LAMBDA st: st.in_ > 0) ELSE <<>>
      F0 == IF g.trace = 1 THEN F \cup {Edge(cuts[j]) : j \in 1..Len(cuts)} ELSE F
      fr[j \in 0..Len(cuts)] == IF j = 0 THEN F0 ELSE fr[j - 1] \ {Edge(cuts[j])}
      short == Cardinality(last) < target IN
  << Cl("partition", ByLabel(o.labels) = last), Cl("count", Cardinality(last) = target \/ (short /\ AllowedIn(e, F) = {}) \/ (n0 > target /\ Cardinality(last) = n0)),
     Cl("quorum", \A P \in last : Enough(e, P)), Cl("warned-short", Same(o.short, short)), Cl("warned-islands", Same(o.islands, n0 > 1)),
     Cl("weights-kept", Same(o.wkept, TRUE)), Cl("data-kept", Same(o.kept, TRUE)),
     Cl("rescored", (g.mode = "lag" /\ Cardinality(last) = 1) \/ Within(o.rescore, TotalOf(e, last), Tol(e))) >> \o
  (IF g.trace = 1 THEN ForestCl(e, F0) \o << Cl("trace-length", Len(cuts) = Cardinality(last) - n0) >> \o
      FoldLeft(LAMBDA a, j: a \o StepCl(e, fr[j - 1], Edge(cuts[j]), cuts[j]), <<>>, [j \in 1..Len(cuts) |-> j] \o <<>>)
   ELSE << Cl("inside-graph", F \subseteq adj) >>)
\* refusals: the map is too small, an island too small, or the best cut makes things worse
RaisedCl(e) ==
  LET g == e.cfg  V == 1..e.in.n  adj == Pairs(e.in.adj)  P0 == PartsOf(adj, V)  target == g.k IN
  << Cl("refusal", CASE StrHas(e.exc.msg, "number of clusters times the quorum") -> e.in.n <= g.k * g.quorum
                     [] StrHas(e.exc.msg, "Islands must be larger") -> Cardinality(P0) > 1 /\ \E P \in P0 : ~Enough(e, P)
                     [] StrHas(e.exc.msg, "score increased") -> g.mode \in {"attr", "tsls", "lag"} [] OTHER -> FALSE) >>
Stage(s, e) == IF Raised(e) THEN RaisedCl(e) ELSE
  << Cl("accepted", e.in.n > e.cfg.k * e.cfg.quorum /\ \A P \in PartsOf(Pairs(e.in.adj), 1..e.in.n) : Cardinality(PartsOf(Pairs(e.in.adj), 1..e.in.n)) = 1 \/ Enough(e, P)) >> \o FitCl(e)
TNext == Replay(Stage, 1)
================================================================================
