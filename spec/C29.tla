----------------------------------- MODULE C29 -----------------------------------
(* Recorded data generation: equations, makers, distributions.                       *)
EXTENDS Conf, Imp
None(o) == Same(o.y, "none")
Near(a, b) == Within(a, b, Dec("0.00000002") ** (1 ++ MaxAll(MAbs(b))))
Err(c, e) == LET W == e.in.W  l == e.in.lam  u == e.in.u IN IF c.model = "sar" THEN Solve(IrW(W, l), u) ELSE u ++ l ** (W ** u)
ExpApply(A, v) == LET f == FoldLeft(LAMBDA a, j: LET t == (A ** a[1]) // j IN <<t, a[2] ++ t>>, <<v, v>>, NumSeq(1, 90)) IN f[2]
Eqn(e) ==
  LET c == e.cfg  i == e.in  lagged(z) == Solve(IrW(i.W, i.rho), z) IN
  CASE c.fn = "errproc" -> Err(c, e) [] c.fn = "ols" -> i.xb ++ i.u [] c.fn = "slx" -> (i.xb ++ i.wxg) ++ i.u [] c.fn = "sperror" -> i.xb ++ Err(c, e)
    [] c.fn = "slxerror" -> (i.xb ++ i.wxg) ++ Err(c, e) [] c.fn = "lag" -> lagged(i.xb ++ i.u) [] c.fn = "spdurbin" -> lagged((i.xb ++ i.wxg) ++ i.u)
    [] c.fn = "lagerr" -> lagged(i.xb ++ Err(c, e)) [] c.fn = "gns" -> lagged((i.xb ++ i.wxg) ++ Err(c, e))
    [] c.fn = "mess" -> ExpApply(MNeg(LN(1 -- i.rho)) ** i.W, i.xb ++ i.u) [] c.fn = "heterror" -> i.u (.) MSqrt(i.xb) [] OTHER -> i.xb ++ i.u
\* 1 where above the mean; values within rounding of the mean may go either way
BinOk(y, z) == LET d == z -- Mean(z)  t == Dec("0.0000001") ** (1 ++ MaxAll(MAbs(z))) IN
  Rows(y) = Rows(z) /\ Cols(y) = 1 /\ \A j \in 1..Rows(z) : Le(MAbs(At(d, j, 1)), t) \/ CloseD(At(y, j, 1), IF Lt(Rat(0, 1), At(d, j, 1)) THEN 1 ELSE 0, 12)
DgpCl(e) ==
  LET c == e.cfg  o == e.obs  uses == c.fn \in {"errproc", "sperror", "slxerror", "lagerr", "gns"} IN
  IF c.bad # "" \/ (c.model = "bogus" /\ uses) THEN << Cl("no-data", None(o)), Cl("says-so", Same(o.said, TRUE)) >>
  ELSE << Cl("inputs-kept", Same(o.kept, TRUE)), Cl("equation", IF c.ybin = 1 \/ c.fn = "probit" THEN BinOk(o.y, Eqn(e)) ELSE Near(o.y, Eqn(e))) >>
LagCols(W, x, o) == LET f[j \in 1..o] == IF j = 1 THEN W ** x ELSE W ** f[j - 1] IN HCat([j \in 1..o |-> f[j]] \o <<>>)
MakeCl(e) ==
  LET c == e.cfg  o == e.obs  i == e.in IN
  IF c.bad = 1 \/ c.fn = "vbogus" THEN << Cl("no-data", None(o)), Cl("says-so", Same(o.said, TRUE)) >>
  ELSE << Cl("made", CASE c.fn = "wx" -> CloseD(o.y, LagCols(i.W, i.x, c.o), 11) [] c.fn = "xb" -> CloseD(o.y, HCat(<<Fill(Rows(i.x), 1, 1), i.x>>) ** i.b, 11)
                       [] c.fn = "wxg" -> CloseD(o.y, i.x ** i.b, 11) [] c.fn = "bin" -> BinOk(o.y, i.x)
                       [] c.fn = "vlinear" -> CloseD(o.y, FromSeq([j \in 1..i.n |-> i.lo ++ ((i.hi -- i.lo) ** (j - 1)) // (i.n - 1)] \o <<>>), 11)
                       [] c.fn = "vgroup" -> CloseD(o.y, VCat([j \in 1..Rows(i.sizes) |-> Fill(IntOf(At(i.sizes, j, 1)), 1, At(i.vars, j, 1))] \o <<>>), 11)
                       [] OTHER -> Rows(o.y) = i.n /\ Cols(o.y) = 1 /\ Le(i.lo, MinAll(o.y)) /\ Le(MaxAll(o.y), i.hi)) >>
\* ---- distributions: F at the recorded points against the share of draws below
Cdf(e, j, p) ==
  LET m == At(e.in.mu, j, 1)  v == At(e.in.var, j, 1)  f == e.cfg.fn IN
  CASE f \in {"normal", "x-normal", "x-bivnormal"} -> MNormCdf((p -- m) // MSqrt(v))
    [] f = "lognormal" -> MNormCdf((LN(p) -- m) // MSqrt(v))
    [] f = "laplace" -> LET z == (p -- m) // MSqrt(v // 2) IN IF Lt(z, Rat(0, 1)) THEN MExp(z) // 2 ELSE 1 -- MExp(MNeg(z)) // 2
    [] OTHER -> p // MSqrt(12 ** v)
\* six standard errors of a share, of n draws
ShareOk(s, F, n) == Within(s, F, 6 ** MSqrt((F ** (1 -- F)) // n) ++ Rat(1, n))
DrawCl(e) ==
  LET c == e.cfg  o == e.obs  i == e.in  n == i.n IN
  IF c.fn \in {"bogus", "x-bogus", "x-mismatch", "x-tri"} THEN << Cl("no-data", None(o)) >>
  ELSE << Cl("shape", o.rows = n /\ o.cols = i.k), Cl("small-shape", Same(o.small, <<5, i.k>>)), Cl("reproducible", Same(o.again, TRUE)) >> \o
       (IF c.fn = "cauchy" THEN << Cl("distribution", \A p \in 1..Rows(i.theta) : ShareOk(At(o.share[1], p, 1), At(i.theta, p, 1), n)) >>
        ELSE << Cl("distribution", \A j \in 1..i.k : \A p \in 1..Rows(i.pts[j]) : ShareOk(At(o.share[j], p, 1), Cdf(e, j, At(i.pts[j], p, 1)), n)) >>) \o
       (IF i.k = 2 THEN << Cl("correlation", Within(o.cor, IF c.fn = "x-bivnormal" THEN i.cor ELSE Rat(0, 1), 6 // MSqrt(Rat(n, 1)))) >> ELSE <<>>) \o << Cl("distinct-columns", Same(o.distinct, TRUE)) >>
\* expansions may be refused only where convergence is not guaranteed
NoConv(e) == /\ StrHas(e.exc.msg, "power expansion") /\ e.op = "dgp" /\ e.cfg.inv = "power_exp"
             /\ LET b == MaxAll(RowSums(MAbs(e.in.W))) ** MaxAll(ColSums(MAbs(e.in.W))) IN Le(Rat(1, 1), Sq(e.in.rho) ** b) \/ Le(Rat(1, 1), Sq(e.in.lam) ** b)
Stage(s, e) == IF Raised(e) THEN << Cl("no-exception", NoConv(e)) >>
               ELSE CASE e.op = "dgp" -> DgpCl(e) [] e.op = "make" -> MakeCl(e) [] OTHER -> DrawCl(e)
TNext == Replay(Stage, 1)
================================================================================
