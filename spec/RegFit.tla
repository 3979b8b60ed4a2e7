--------------------------------- MODULE RegFit --------------------------------
(* Design and fit of a recorded least squares / 2SLS / spatial lag model with     *)
(* regimes.  e.cfg: est kx const slx ne nq nr one vary wl lagq robust n_k errsep  *)
(* lagsep std;  e.in: x y yend q W W0 ri labs names K                             *)
EXTENDS Conf, Regi, Reg

C(e) == e.cfg
KeptX(e) == Kept(C(e).kx, ToSet(C(e).const))
\* with separate fits a variable that is constant within some regime is removed from all
DropX(e) == ToSet(C(e).creg)
Kx(e) == SelectSeq(KeptX(e), LAMBDA j: j \notin DropX(e))
Mask(e) == IF "mask" \in DOMAIN C(e) THEN C(e).mask ELSE <<>>
Lag(e) == C(e).est \in {"GM_Lag", "ML_Lag", "GM_Combo", "GM_Combo_Het", "GM_Combo_Hom"}
XC(e) == <<One>> \o (LET b == Block("x", Kx(e), 0) \o (IF C(e).slx > 0 THEN SelectSeq(XCols(KeptX(e), Mask(e), C(e).slx), LAMBDA c: c.lag > 0) ELSE <<>>) IN b)
EC(e) == Block("e", Upto(C(e).ne), 0) \o (IF Lag(e) THEN <<Wy>> ELSE <<>>)
Dd(e) == [kept |-> Kx(e), slx |-> C(e).slx, nq |-> C(e).nq, lagq |-> C(e).lagq]
QC(e) == Block("q", Upto(C(e).nq), 0) \o (IF Lag(e) THEN SpInst(Dd(e), 1, C(e).wl) ELSE <<>>)
VX(e) == <<1 - C(e).one>> \o SubSeq(C(e).vary, 1, Len(XC(e)) - 1)
VE(e) == SubSeq(C(e).vary, Len(XC(e)), Len(C(e).vary)) \o (IF Lag(e) THEN <<C(e).lagsep>> ELSE <<>>)
XR(e) == RBlock(XC(e), VX(e), C(e).nr)
ER(e) == IF EC(e) = <<>> THEN <<>> ELSE RBlock(EC(e), VE(e), C(e).nr)
QR(e) == RBlock(QC(e), AllVary(QC(e)), C(e).nr)
ZR(e) == XR(e) \o ER(e)
HR(e) == XR(e) \o QR(e)
Nm(e) == [x |-> e.in.name_x, y |-> e.in.name_y, e |-> e.in.name_yend, q |-> e.in.name_q]
Src(e) == [x |-> e.in.x, y |-> e.in.y, e |-> Fld(e.in, "yend"), q |-> Fld(e.in, "q")]
D(e) == Indic(e.in.ri, C(e).nr)
N(e) == Rows(e.in.y)
IsAll(e) == C(e).one = 0 /\ \A j \in 1..Len(C(e).vary) : C(e).vary[j] = 1
\* one fit per regime
Multi(e) == CASE Lag(e) -> C(e).lagsep = 1 /\ C(e).robust # "hac" /\ IsAll(e)
              [] OTHER -> C(e).errsep = 1 /\ C(e).robust # "hac" /\ IsAll(e)
WeightsOf(e) == IF Lag(e) /\ C(e).lagsep = 1 THEN BlockW(e.in.W0, D(e), C(e).std) ELSE e.in.W
Z(e) == RegMat(ZR(e), Src(e), WeightsOf(e), D(e))
H(e) == RegMat(HR(e), Src(e), WeightsOf(e), D(e))

Div(e, f) == IF C(e).n_k = 1 THEN f.n - f.k ELSE f.n
\* OLS is the case H = Z: a maps h'u to the coefficients
Basic(e, y, z, h) ==
  IF C(e).est = "OLS"
  THEN LET f == LS(y, z) IN [b |-> f.b, varb |-> f.xtxi, a |-> f.xtxi, h |-> z, z |-> z, predy |-> f.predy, u |-> f.u, utu |-> f.utu, n |-> f.n, k |-> f.k]
  ELSE LET f == IV(y, z, h) IN [b |-> f.b, varb |-> f.varb, a |-> f.varb ** f.p, h |-> h, z |-> z, predy |-> f.predy, u |-> f.u, utu |-> f.utu, n |-> f.n, k |-> f.k]
ReFitted(f, y, b) == LET p == f.z ** b  u == y -- p IN [f EXCEPT !.b = b, !.predy = p, !.u = u, !.utu = SumSq(u)]
\* the fit with its covariance
WithVm(e, y, f, K) ==
  CASE C(e).robust = "white" ->
         [f |-> f, vm |-> f.a ** (WhiteMid(f.h, f.u) ** (IF C(e).n_k = 1 THEN Rat(f.n, f.n - f.k) ELSE 1)) ** Tr(f.a)]
    [] C(e).robust = "hac" -> [f |-> f, vm |-> f.a ** HacMid(f.h, f.u, K) ** Tr(f.a)]
    [] C(e).robust = "ogmm" ->
         LET S == WhiteMid(f.h, f.u) // Div(e, f)
             zh == Tr(f.z) ** f.h
             v == Inv(zh ** Solve(S, Tr(zh)))
             b == v ** (zh ** Solve(S, Tr(f.h) ** y))
         IN [f |-> ReFitted(f, y, b), vm |-> Div(e, f) ** v]
    [] OTHER -> [f |-> f, vm |-> (f.utu // Div(e, f)) ** f.varb]
\* group-wise weighted least squares (OLS, separate error variances, common coefficients)
GroupWise(e) == C(e).est = "OLS" /\ C(e).errsep = 1 /\ C(e).robust = "none" /\ ~Multi(e)
SigOf(e, f, r) == LET m == Members(e.in.ri, r)
                  IN SumSq(RowsOf(f.u, m)) // (Len(m) - (IF C(e).n_k = 1 THEN f.k ELSE 0))
GroupFit(e, f) ==
  LET nr == C(e).nr
      s == D(e) ** FromSeq([r \in 1..nr |-> 1 // Sqrt(SigOf(e, f, r))])
      y2 == e.in.y (.) s
      z2 == f.z (.) s
      g == LS(y2, z2)
  IN [f |-> ReFitted(f, e.in.y, g.b), vm |-> (g.utu // Div(e, f)) ** g.xtxi]
Pooled(e) == LET f == Basic(e, e.in.y, Z(e), H(e))
             IN IF GroupWise(e) THEN GroupFit(e, f) ELSE WithVm(e, e.in.y, f, Fld(e.in, "K"))
\* regime r on its own: its rows, its weights; spatial lags of x were taken with the complete W
SubDesign(e, r) ==
  LET m == Members(e.in.ri, r)  d == SubSrc(Src(e), m)  n == Len(m)
      w == SubW(e.in.W0, m, C(e).std)
      xs == IF C(e).slx > 0 THEN RowsOf(Numeric(XC(e), Src(e), e.in.W, N(e)), m) ELSE Numeric(XC(e), d, w, n)
      z == HCat(<<xs>> \o [j \in 1..Len(EC(e)) |-> NumCol(EC(e)[j], d, w, n)])
      h == HCat(<<xs>> \o [j \in 1..Len(QC(e)) |-> NumCol(QC(e)[j], d, w, n)])
  IN [y |-> d.y, z |-> z, h |-> h, w |-> w]
SubFit(e, r) == LET s == SubDesign(e, r) IN WithVm(e, s.y, Basic(e, s.y, s.z, s.h), 0)
MultiLabels(e, r) == RegLabels([j \in 1..Len(XC(e) \o EC(e)) |-> RC((XC(e) \o EC(e))[j], r)], Nm(e), e.in.labs)
================================================================================
