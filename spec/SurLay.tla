--------------------------------- MODULE SurLay --------------------------------
(* Coefficients of a system of equations.  Equation q has kx exogenous columns    *)
(* (the constant first), ke endogenous ones and possibly its own spatial lag Wy    *)
(* ("no", "common" to the regimes or "by" regime); with nr > 0 regimes the          *)
(* exogenous columns are repeated per regime, then the endogenous ones.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Nums(n) == [i \in 1..n |-> i]
Var(s, i, r) == [s |-> s, i |-> i, r |-> r]
Regs(nr) == IF nr = 0 THEN <<0>> ELSE Nums(nr)
Flat(ss) == FoldLeft(LAMBDA a, b: a \o b, <<>>, ss)
EqX(kx, nr) == Flat([r \in 1..Len(Regs(nr)) |-> [i \in 1..kx |-> Var("x", i, Regs(nr)[r])]])
EqE(ke, nr, wy) ==
  Flat([r \in 1..Len(Regs(nr)) |-> [i \in 1..ke |-> Var("e", i, Regs(nr)[r])] \o
        (IF wy = "by" THEN <<Var("w", 0, Regs(nr)[r])>> ELSE <<>>)])
  \o (IF wy = "common" THEN <<Var("w", 0, 0)>> ELSE <<>>)
EqQ(kq, nr) == Flat([r \in 1..Len(Regs(nr)) |-> [i \in 1..kq |-> Var("q", i, Regs(nr)[r])]])
EqZ(kx, ke, nr, wy) == EqX(kx, nr) \o EqE(ke, nr, wy)
Ks(c) == [q \in 1..Len(c.kx) |-> Len(EqZ(c.kx[q], c.ke[q], c.nr, c.wy))]
Off(K, q) == FoldLeft(LAMBDA a, p: a + K[p], 0, Nums(q - 1))
Pos(K, q, j) == Off(K, q) + j
Total(K) == Off(K, Len(K) + 1)
\* constancy across equations of the j-th coefficient: pairs of stacked positions
Between(K, j) == [q \in 1..(Len(K) - 1) |-> <<Pos(K, 1, j), Pos(K, q + 1, j)>>]
\* constancy across regimes within one equation: the variables tested, in order, and their pairs
Tested(z) == LET f == SelectSeq(z, LAMBDA v: v.r = 1) IN
             SelectSeq(f, LAMBDA v: v.s = "x") \o SelectSeq(f, LAMBDA v: v.s # "x")
At2(z, v, r) == CHOOSE p \in 1..Len(z) : z[p].s = v.s /\ z[p].i = v.i /\ z[p].r = r
Within1(z, v, nr) == [r \in 1..(nr - 1) |-> <<At2(z, v, 1), At2(z, v, r + 1)>>]
\* the order in which a report lists the coefficients of an equation: regime by regime, what is
\* common to the regimes last
RowOrder(kx, ke, nr, wy) ==
  LET z == EqZ(kx, ke, nr, wy) IN
  Flat([r \in 1..Len(Regs(nr)) |-> SelectSeq(z, LAMBDA v: v.r = Regs(nr)[r] /\ ~(v.s = "w" /\ wy = "common"))])
  \o (IF wy = "common" THEN <<Var("w", 0, 0)>> ELSE <<>>)
At3(z, v) == CHOOSE p \in 1..Len(z) : z[p] = v
RowPos(kx, ke, nr, wy) == LET o == RowOrder(kx, ke, nr, wy)  z == EqZ(kx, ke, nr, wy) IN [j \in 1..Len(o) |-> At3(z, o[j])]
================================================================================
