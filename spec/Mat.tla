---------------------------------- MODULE Mat ----------------------------------
(* Dense matrices over (high precision) reals.  The operators are evaluated by  *)
(* java/Mat.java; the bodies below are placeholders that TLC never uses.  An    *)
(* integer is a 1x1 matrix.  Operators are total: nonsense yields a POISON      *)
(* value which propagates and is Close to nothing.  spec/MatLaws.tla checks the *)
(* algebraic laws that pin down these operators (trusted base of the specs).    *)
EXTENDS Integers, Sequences
LOCAL X == CHOOSE x \in {} : TRUE

\* elementwise (1x1, rows and columns broadcast)
MAdd(a, b) == X      MSub(a, b) == X      MHad(a, b) == X     MDiv(a, b) == X
MMaxE(a, b) == X     MPowE(a, b) == X
MNeg(a) == X         MAbs(a) == X         MSqrt(a) == X       MLog(a) == X
MExp(a) == X         MSign(a) == X        MNormCdf(a) == X    MNormPdf(a) == X
\* linear algebra
MMul(a, b) == X      Tr(a) == X           Solve(a, b) == X    Inv(a) == X
LogDet(a) == X       EigSym(a) == X       Kron(a, b) == X
\* shape
Rows(a) == X         Cols(a) == X         IsMat(a) == X       HCat(s) == X
VCat(s) == X         At(a, i, j) == X     ColsOf(a, s) == X   RowsOf(a, s) == X
Diag(a) == X         DiagOf(a) == X       Trace(a) == X       SumAll(a) == X
RowSums(a) == X      ColSums(a) == X      MaxAll(a) == X      MinAll(a) == X
Ident(n) == X        Fill(r, c, v) == X   Reshape(a, r, c) == X
FromSeq(s) == X      Rat(p, q) == X       Dec(s) == X         IntOf(a) == X
\* comparisons: Close to d digits (see the Java source for the exact tolerance)
Lt(a, b) == X        Le(a, b) == X        CloseD(a, b, d) == X
CloseVm(a, b, d) == X                     Within(a, b, tol) == X
\* distributions
Chi2Sf(x, df) == X   NormP(x) == X        NormSf(x) == X      TP(x, df) == X
FSf(x, d1, d2) == X
\* environment
LoadTrace(path) == X Env(name) == X       Show(a) == X
\* total equality, total field access ("absent"), length (-1: no sequence), substring
Same(a, b) == X      Fld(r, f) == X       SeqLen(s) == X      StrHas(s, t) == X

\* infix notation: ++ and -- elementwise sum, difference; ** matrix product (or
\* scaling by a 1x1); // elementwise quotient; (.) elementwise product
a ++ b == MAdd(a, b)
a -- b == MSub(a, b)
a ** b == MMul(a, b)
a // b == MDiv(a, b)
a (.) b == MHad(a, b)
================================================================================
