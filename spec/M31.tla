----------------------------------- MODULE M31 -----------------------------------
(* All histories of reading and setting the lazy attributes of one object.          *)
EXTENDS Lazy, Json
CONSTANT Len0
VARIABLES cls, cell, hist, reads
S(p) == [k |-> "set", p |-> p]
R(p) == [k |-> "read", p |-> p]
Ops(c) == {R(p) : p \in Cells(c)} \cup {S(p) : p \in Settable(c)}
MInit == cls \in Classes /\ cell = [p \in Cells(cls) |-> ""] /\ hist = <<>> /\ reads = <<>>
\* reading p fills the cells it needs
RECURSIVE Load(_, _, _)
Load(c, ce, p) ==
  IF ce[p] # "" THEN ce
  ELSE LET ds == DepsOf(c, p)
           ce2 == FoldLeft(LAMBDA a, q: Load(c, a, q), ce, ds)
       IN [ce2 EXCEPT ![p] = p \o "(" \o FoldLeft(LAMBDA a, q: a \o ce2[q] \o " ", "", ds) \o ")"]
Step(o) == /\ Len(hist) < Len0
           /\ hist' = Append(hist, o)
           /\ cell' = IF o.k = "set" THEN [cell EXCEPT ![o.p] = "new" \o ToString(Len(hist))] ELSE Load(cls, cell, o.p)
           /\ reads' = Append(reads, IF o.k = "set" THEN "" ELSE Load(cls, cell, o.p)[o.p])
           /\ UNCHANGED cls
MNext == \E o \in Ops(cls) : Step(o)
Canonical(c, p) == Load(c, [q \in Cells(c) |-> ""], p)[p]
\* without writes every order of reading gives the same values
OrderFree == (\A j \in DOMAIN hist : hist[j].k = "read") => \A j \in DOMAIN hist : reads[j] = Canonical(cls, hist[j].p)
\* two readings differ only when the attribute was set in between
Stable == \A i, j \in DOMAIN hist : i < j /\ hist[i].k = "read" /\ hist[j] = hist[i] /\ reads[i] # reads[j] => \E m \in i..j : hist[m] = S(hist[i].p)
\* a value that was set is the value read
Obeyed == \A i, j \in DOMAIN hist : i < j /\ hist[i].k = "set" /\ hist[j] = R(hist[i].p) /\ (\A m \in (i + 1)..j : hist[m] # S(hist[i].p)) => reads[j] = "new" \o ToString(i - 1)
\* helper functions on every mix of storage
Kinds == {"dense", "csr", "csc"}
Helpers == [f : {"spdot", "spmultiply", "sphstack", "spbroadcast"}, a : Kinds, b : Kinds, out : 0..1, shape : {"tall", "square", "wide", "vector"}, op : {"helper"}]
Singles == [f : {"spmin", "spmax", "splogdet", "spinv", "spisfinite", "spfill_diagonal"}, a : Kinds, shape : {"square"}, op : {"helper"}]
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"),
  SetToSeq({[op |-> "history", cls |-> c, hist |-> h] : c \in Classes, h \in {}} \cup Helpers \cup Singles) \o
  FoldLeft(LAMBDA a, c: a \o SetToSeq({[op |-> "history", cls |-> c, hist |-> h] : h \in [1..Len0 -> Ops(c)]}), <<>>, SetToSeq(Classes)))
================================================================================
