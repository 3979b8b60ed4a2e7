----------------------------------- MODULE C35 ----------------------------------
(* Recorded headings, names and warnings of reports.                                 *)
EXTENDS Cat, Head, Conf
Flat(s) == FoldLeft(LAMBDA a, b: a \o b, <<>>, s)
HasW(t, x) == \E w \in Words(x) : StrHas(t, w)
Traits(t, has, lacks, tag) ==
  << Cl("heading" \o tag, \A x \in has : HasW(t, x)), Cl("heading-says-no-more" \o tag, \A x \in lacks : ~HasW(t, x)) >>
NamesCl(e, q) == << Cl("data-set", q.ds = e.in.ds \/ (e.in.ds = "unknown" /\ q.ds = "None")),
                    Cl("weights", q.w = e.in.w \/ (e.in.w \in {"none", "unknown"} /\ q.w \in {"None", "absent"})) >>
CrossCl(e) ==
  LET c == e.cfg  o == e.obs  m == Multi(c)  L == SeqLen(o.eqs)  has == Has(c, m)  no == Lacks(c, m)
      eq(j) == LET q == o.eqs[j] IN
        Traits(q.title, has, no, "") \o NamesCl(e, q) \o
        << Cl("dependent", q.y = (IF m THEN e.in.labs[j] \o "_" \o e.in.name_y ELSE e.in.name_y)),
           Cl("heading-regime", ~m \/ q.regime = e.in.labs[j]),
           Cl("heading-method", c.method = "none" \/ StrHas(q.title, "(METHOD = " \o (CASE c.method = "full" -> "FULL" [] c.method = "ord" -> "ORD" [] OTHER -> "LU") \o ")")),
           Cl("regimes-variable", c.regi = 0 \/ (q.regvar # "absent" /\ (e.in.regvar = "absent" \/ q.regvar = e.in.regvar))) >>
  IN << Cl("headings", L = IF m THEN c.nr ELSE 1) >> \o (IF L # (IF m THEN c.nr ELSE 1) THEN <<>> ELSE Flat([j \in 1..L |-> eq(j)]))
\* what was changed or went wrong is said
Said(o, t) == \E j \in 1..SeqLen(o.warn) : StrHas(o.warn[j], t)
Outside(r) == ~Same(r, "absent") /\ ~Lt(MAbs(r), Rat(1, 1))
WarnCl(e) ==
  LET c == e.cfg  o == e.obs  out == \E j \in 1..SeqLen(o.rho) : Outside(o.rho[j]) IN
  << Cl("warns-removed-constant", Said(o, "removed for being constant") <=> c.cst > 0),
     Cl("warns-which", c.cst = 0 \/ c.form = "none" \/ Said(o, "'" \o e.in.name_x[c.cst] \o "'")),
     Cl("warns-outside-bounds", Said(o, "outside the boundary (-1, 1)") <=> out) >>
OtherCl(e) ==
  LET c == e.cfg  o == e.obs  q == o.eqs[1] IN
  << Cl("headings", SeqLen(o.eqs) = 1) >> \o
  (IF SeqLen(o.eqs) # 1 THEN <<>> ELSE Traits(q.title, HasP(c), LacksP(c), "") \o NamesCl(e, q))
Stage(s, e) ==
  IF Raised(e) THEN << Cl("no-exception", StrHas(e.exc.msg, "power expansion")) >>
  ELSE IF e.cfg.kind = "cross" THEN CrossCl(e) \o WarnCl(e) ELSE OtherCl(e)
TNext == Replay(Stage, 1)
================================================================================
