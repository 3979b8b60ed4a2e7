--------------------------------- MODULE SurLag --------------------------------
(* Instruments of the spatial lag system: [v |-> column, p |-> power of W]          *)
EXTENDS SurLay
LagsOf(l, w) == Flat([p \in 1..w |-> [j \in 1..Len(l) |-> [v |-> l[j], p |-> p]]])
Insts(kx, kq, nr, w, lagq) ==
  LET qs == EqQ(kq, nr) IN
  [j \in 1..Len(qs) |-> [v |-> qs[j], p |-> 0]] \o LagsOf(Tail(EqX(kx, nr)), w) \o (IF lagq = 1 THEN LagsOf(qs, w) ELSE <<>>)
================================================================================
