--------------------------------- MODULE MatLaws --------------------------------
(* Laws that pin down the matrix operators implemented in java/Mat.java, over    *)
(* all pairs of small matrices built from a few entries.                         *)
EXTENDS Mat, FiniteSets, TLC
VARIABLES a, b
V == {-1, 0, 2}
M2(p, q, r, s) == Reshape(FromSeq(<<p, q, r, s>>), 2, 2)
All == {<<p, q, r, s>> : p \in V, q \in V, r \in V, s \in {-1, 3}}
Mx(t) == M2(t[1], t[2], t[3], t[4])
Init == a \in All /\ b \in All
Next == FALSE /\ UNCHANGED <<a, b>>
A == Mx(a)  B == Mx(b)
I2 == Ident(2)
Eq(x, y) == CloseD(x, y, 25)
det(t) == t[1] * t[4] - t[2] * t[3]
Spd == Tr(A) ** A ++ I2
Arith == /\ Eq(A ++ B, B ++ A) /\ Eq((A ++ B) -- B, A) /\ Eq(Tr(A ** B), Tr(B) ** Tr(A))
         /\ Eq(A ** (B ++ I2), A ** B ++ A) /\ Eq(A (.) B, B (.) A) /\ Eq(MNeg(A), 0 -- A)
         /\ Eq(At(A, 1, 2), a[2]) /\ Eq(At(A, 2, 1), a[3])
         /\ Eq(SumAll(A), a[1] + a[2] + a[3] + a[4]) /\ Eq(Trace(A), a[1] + a[4])
         /\ Eq(Tr(RowSums(Tr(A))), ColSums(A)) /\ Eq(SumAll(RowSums(A)), SumAll(A))
Shapes == /\ Eq(ColsOf(HCat(<<A, B>>), <<3, 4>>), B) /\ Eq(RowsOf(VCat(<<A, B>>), <<1, 2>>), A)
          /\ Eq(Reshape(A, 4, 1), FromSeq(<<a[1], a[2], a[3], a[4]>>))
          /\ Eq(Diag(DiagOf(A)) , A (.) I2) /\ Eq(Kron(I2, A), VCat(<<HCat(<<A, Fill(2, 2, 0)>>), HCat(<<Fill(2, 2, 0), A>>)>>))
Inverse == det(a) # 0 => /\ Eq(Inv(A) ** A, I2) /\ Eq(Solve(A, B), Inv(A) ** B)
                         /\ Eq(LogDet(A), MLog(MAbs(Rat(det(a), 1))))
Spectral == LET e == EigSym(Spd) IN CloseD(SumAll(e), Trace(Spd), 12) /\ CloseD(MExp(SumAll(MLog(e))), MExp(LogDet(Spd)), 11)
Elem == /\ Eq(MLog(MExp(A)), A) /\ Eq(MSqrt(A (.) A), MAbs(A)) /\ Eq(MSign(A) (.) MAbs(A), A)
        /\ Eq((Spd ++ 10) // (Spd ++ 10), Fill(2, 2, 1))
        /\ CloseD(MNormCdf(A) ++ MNormCdf(MNeg(A)), Fill(2, 2, 1), 13)
Order == /\ (Lt(a[1], a[2]) <=> a[1] < a[2]) /\ (Le(a[1], a[2]) <=> a[1] <= a[2])
         /\ ~CloseD(A, A ++ Fill(2, 2, Rat(1, 1000)), 8) /\ ~CloseD(A, HCat(<<A, A>>), 8)
         /\ ~CloseD("absent", A, 8) /\ ~CloseD("nonfinite", "nonfinite", 8) /\ ~CloseD(Inv(Fill(2, 2, 0)), Inv(Fill(2, 2, 0)), 8)
Dist == /\ CloseD(Chi2Sf(Dec("3.841458820694124"), 1), Dec("0.05"), 12)
        /\ CloseD(Chi2Sf(Dec("9.487729036781154"), 4), Dec("0.05"), 12)
        /\ CloseD(NormP(Dec("1.959963984540054")), Dec("0.05"), 12)
        /\ CloseD(TP(Dec("2.228138851986274"), 10), Dec("0.05"), 11)
        /\ CloseD(FSf(Dec("3.3258345304130104"), 5, 10), Dec("0.05"), 9)
        /\ CloseD(MNormCdf(Dec("1.959963984540054")), Dec("0.975"), 12)
Dist1 == a = b => Dist
================================================================================
