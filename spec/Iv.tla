----------------------------------- MODULE Iv ----------------------------------
(* What a (spatial) 2SLS event must show, as functions of the recorded inputs.   *)
(* e.cfg: kx const slx mask ne nq lagq wl, est in {"TSLS", "GM_Lag", "OLS"}        *)
EXTENDS Conf, Design, Reg, Tab

Dd(e) == [kept |-> Kept(e.cfg.kx, ToSet(e.cfg.const)), mask |-> e.cfg.mask, slx |-> e.cfg.slx, ne |-> e.cfg.ne,
          nq |-> e.cfg.nq, lagq |-> e.cfg.lagq, wl |-> e.cfg.wl]
Src(e) == [x |-> e.in.x, y |-> e.in.y, e |-> Fld(e.in, "yend"), q |-> Fld(e.in, "q")]
Nm(e) == [x |-> e.in.name_x, y |-> e.in.name_y, e |-> e.in.name_yend, q |-> e.in.name_q]
\* the form of the model: exogenous only, with endogenous variables, with a spatial lag
Form(e) == LET f == Fld(e.cfg, "form") IN
           IF ~Same(f, "absent") THEN f
           ELSE CASE e.cfg.est = "OLS" -> "x" [] e.cfg.est = "TSLS" -> "iv" [] OTHER -> "lag"
Zs(e) == CASE Form(e) = "x" -> XCols(Dd(e).kept, e.cfg.mask, e.cfg.slx)
           [] Form(e) = "iv" -> ZCols(Dd(e)) [] OTHER -> ZLag(Dd(e))
Hs(e) == CASE Form(e) = "x" -> Zs(e) [] Form(e) = "iv" -> HCols(Dd(e)) [] OTHER -> HLag(Dd(e))
N(e) == Rows(e.in.y)
Z(e) == Numeric(Zs(e), Src(e), e.in.W, N(e))
H(e) == Numeric(Hs(e), Src(e), e.in.W, N(e))
\* the fit: OLS as the special case H = Z
Fit(e) == IF e.cfg.est = "OLS"
          THEN LET f == LS(e.in.y, Z(e)) IN [b |-> f.b, varb |-> f.xtxi, a |-> f.xtxi, h |-> Z(e), predy |-> f.predy, u |-> f.u, utu |-> f.utu, n |-> f.n, k |-> f.k]
          ELSE LET f == IV(e.in.y, Z(e), H(e))
               IN [b |-> f.b, varb |-> f.varb, a |-> f.varb ** f.p, h |-> H(e), predy |-> f.predy, u |-> f.u, utu |-> f.utu, n |-> f.n, k |-> f.k]
Div(e, f) == IF e.cfg.n_k = 1 THEN f.n - f.k ELSE f.n
ClassicVm(e, f) == (f.utu // Div(e, f)) ** f.varb
WhiteVm(e, f) == LET m == WhiteMid(f.h, f.u) ** (IF e.cfg.n_k = 1 THEN Rat(f.n, f.n - f.k) ELSE 1)
                 IN f.a ** m ** Tr(f.a)
HacVm(e, f) == f.a ** HacMid(f.h, f.u, e.in.K) ** Tr(f.a)
Vm(e, f) == CASE e.cfg.robust = "white" -> WhiteVm(e, f) [] e.cfg.robust = "hac" -> HacVm(e, f) [] OTHER -> ClassicVm(e, f)
\* instruments by meaning: base name and total power of W (parsed labels)
HMeaning(e) == [j \in 1..Len(Hs(e)) |-> LET c == Hs(e)[j] IN
  IF c.src = "one" THEN <<"CONSTANT", 0>> ELSE <<(CASE c.src = "x" -> Nm(e).x[c.i] [] OTHER -> Nm(e).q[c.i]), c.lag>>]
================================================================================
