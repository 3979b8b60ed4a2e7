---------------------------------- MODULE Equiv ---------------------------------
(* What reordering a model's inputs does to its columns.  A transformation lists,   *)
(* for every new position, the old one: px the variables in x, pe the endogenous    *)
(* variables, pr the regimes in label order.                                        *)
EXTENDS Cat
IdT(c) == [px |-> <<1, 2>>, pe |-> Upto(c.ne), pr |-> Upto(c.nr)]
Through(s, p) == [j \in 1..Len(p) |-> s[p[j]]] \o <<>>
\* first s, then t
Comp(s, t) == [px |-> Through(s.px, t.px), pe |-> Through(s.pe, t.pe), pr |-> Through(s.pr, t.pr)]
Swap(n, a) == [j \in 1..n |-> CASE j = a -> a + 1 [] j = a + 1 -> a [] OTHER -> j] \o <<>>
Gens(c) == {[IdT(c) EXCEPT !.px = <<2, 1>>]}
           \cup (IF c.ne > 1 THEN {[IdT(c) EXCEPT !.pe = <<2, 1>>]} ELSE {})
           \cup {[IdT(c) EXCEPT !.pr = Swap(c.nr, a)] : a \in 1..(c.nr - 1)}
\* the old column behind a new one
Back(t, rc) == [c |-> [rc.c EXCEPT !.i = CASE rc.c.src = "x" -> t.px[rc.c.i] [] rc.c.src = "e" -> t.pe[rc.c.i] [] OTHER -> rc.c.i],
                r |-> IF rc.r = 0 THEN 0 ELSE t.pr[rc.r]]
Index(s, v) == CHOOSE j \in 1..Len(s) : s[j] = v
\* the call with its inputs reordered
Act(c, t) ==
  LET d == [c EXCEPT !.mask = IF c.mask = <<>> THEN <<>> ELSE Through(c.mask, t.px)] IN
  IF c.regi = 0 \/ c.vk = "all" THEN d
  ELSE LET old == Tail(XB(c)) \o Block("e", Upto(c.ne), 0)  new == Tail(XB(d)) \o Block("e", Upto(c.ne), 0)
           v == VaryV(c) IN
       [f \in DOMAIN d \cup {"vec"} |-> IF f = "vec" THEN [j \in 1..Len(new) |-> v[Index(old, Back(t, RC(new[j], 0)).c)]] \o <<>>
                                         ELSE IF f = "vk" THEN "vec" ELSE d[f]]
\* old position of every coefficient of the reordered call
Pos(c, t) == LET o == Cols0(c)  n == Cols0(Act(c, t)) IN [j \in 1..Len(n) |-> Index(o, Back(t, n[j]))] \o <<>>
================================================================================
