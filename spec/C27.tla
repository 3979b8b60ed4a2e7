----------------------------------- MODULE C27 -----------------------------------
(* Recorded multipliers, effects, filters, lags and inverse products.                *)
EXTENDS Imp
MultCl(e) ==
  LET o == e.obs  W == e.in.W  r == e.in.rho  m == e.cfg.method  known == m # "bogus"
      ati == Total(r) IN
  << Cl("ati", CloseD(o.ati, ati, 9)), Cl("aii", CloseD(o.aii ++ o.adi, o.ati, 9)), Cl("method", Same(o.method, IF known THEN m ELSE "simple")),
     Cl("warned", Same(o.warned, ~known)) >> \o
  CASE m = "full" -> << Cl("adi", CloseD(o.adi, Direct(W, r), 9)) >>
    [] m = "power" -> << Cl("adi-truncated", o.pow >= 1 /\ CloseD(o.adi, Truncated(W, r, o.pow), 9)),
                         Cl("adi-precise", Within(o.adi, Direct(W, r), Dec("0.000001"))) >>
    [] OTHER -> << Cl("adi", CloseD(o.adi, 1, 9)), Cl("pow", o.pow = 0) >>
InvCl(e) ==
  LET o == e.obs  W == IF e.cfg.post = 1 THEN Tr(e.in.W) ELSE e.in.W  r == e.in.rho
      exact == Mult(W, r) ** e.in.d  got == IF e.cfg.post = 1 THEN Tr(o.r) ELSE o.r
      lim == e.cfg.maxit IN
  << Cl("inverse-product", IF lim > 0 THEN CloseD(got, Series(W, e.in.d, r, lim), 8) \/ CloseD(got, exact, 6)
                           ELSE Within(got, exact, IF e.cfg.thr = "1e-3" THEN Dec("0.05") ELSE Dec("0.00000001") ** (1 ++ MaxAll(MAbs(exact))))) >>
\* the norm of a term may grow: no convergence is claimed there
NoConv(e) == StrHas(e.exc.msg, "power expansion") /\ e.cfg.method = "power_exp" /\ Le(Rat(1, 1), Sq(e.in.rho) ** (MaxAll(RowSums(e.in.W)) ** MaxAll(ColSums(e.in.W))))
FltCl(e) == << Cl("filter", CloseD(e.obs.r, LET B == Kron(Ident(e.cfg.T), e.in.W) IN e.in.d -- e.in.rho ** (B ** e.in.d), 10)) >>
LagsOf(B, d, p) == LET f[j \in 0..p] == IF j = 0 THEN d ELSE B ** f[j - 1] IN [j \in 1..p |-> f[j]] \o <<>>
LagCl(e) ==
  LET B == Kron(Ident(e.cfg.T), e.in.W)  p == e.cfg.p  k == e.cfg.split  l == LagsOf(B, e.in.d, p) IN
  IF k = 0 THEN << Cl("lags", CloseD(e.obs.r, HCat(l), 10)) >>
  ELSE << Cl("low", CloseD(e.obs.lo, HCat(SubSeq(l, 1, k)), 10)), Cl("high", CloseD(e.obs.hi, HCat(SubSeq(l, k + 1, p)), 10)) >>
ImuCl(e) ==
  LET o == e.obs  W == e.in.W  c == e.in.rho  n == Rows(W)  m == e.cfg.model
      off(A) == A -- Diag(DiagOf(A))
      A == IF m = "lag" THEN Mult(W, c) ELSE IF m \in {"slx", "kernel"} THEN W ELSE LET nz == MSign(MAbs(W)) IN
                  IF m = "power" THEN nz (.) MPowE(W ++ (1 -- nz), c) ELSE nz (.) MExp(MNeg(c) ** W)
      dd == IF m \in {"lag", "kernel"} THEN DiagOf(A) ELSE Fill(n, 1, 0)
      nb == IF m \in {"lag", "kernel"} THEN off(A) ELSE A
  IN << Cl("columns", Same(o.cols, <<e.in.idname, "Direct", "EofNbrs", "EonNbrs">>)), Cl("rows", CloseD(o.n, n, 9)), Cl("ids", Same(o.ids, e.in.ids)),
        Cl("direct", CloseD(o.direct, dd, 9)), Cl("of-neighbours", CloseD(o.eof, RowSums(nb), 9)), Cl("on-neighbours", CloseD(o.eon, Tr(ColSums(nb)), 9)) >>
\* models and containers the documentation leaves out
Unsupported(c) == c.model = "bogus" \/ (c.model \in {"power", "exponential"}) # (c.form = "csr")
\* ---- impacts of a fitted model
Asked(c) == CASE c.imp = "all" -> <<"simple", "full", "power">> [] c.imp = "pair" -> <<"full", "simple">> [] c.imp = "bogus" -> <<"simple">> [] c.imp = "Upper" -> <<"full">> [] OTHER -> <<c.imp>>
Adi(m, W, r) == IF m = "simple" THEN Rat(1, 1) ELSE Direct(W, r)
Pre(e) == {""} \cup {e.in.labs[j] \o "_" : j \in 1..Len(e.in.labs)} \cup {"_Global_"}
\* the x coefficients in order: <<prefix, variable>>
RowsDue(e, names) ==
  FoldLeft(LAMBDA acc, x: LET c == {<<p, v>> \in Pre(e) \X ToSet(e.in.vars) : p \o v = x} IN IF c = {} THEN acc ELSE Append(acc, CHOOSE y \in c : TRUE), <<>>, names)
Fix4(a, b) == Within(a, b, Dec("0.00006") ++ Dec("0.000001") ** MAbs(b))
ImpOf(e, p) ==
  LET r == p.rho  W == p.W  ms == Asked(e.cfg)  due == RowsDue(e, p.names) IN
  IF Le(Rat(1, 1), MAbs(r)) THEN << Cl("no-impacts-outside", Same(p.mult, "null") /\ SeqLen(p.blocks) = 0) >>
  ELSE << Cl("methods", Same(p.keys, ms)),
          Cl("multipliers", \A j \in 1..Len(ms) : LET m == Fld(p.mult, ms[j])  adi == Adi(ms[j], W, r) IN
               SeqLen(m) = 3 /\ CloseD(m[1], adi, 6) /\ CloseD(m[3], Total(r), 8) /\ Within(m[2], Total(r) -- adi, Dec("0.000001") ** (1 ++ MAbs(Total(r))))),
          Cl("blocks", SeqLen(p.blocks) = Len(ms) /\ \A j \in 1..Len(ms) : Same(p.blocks[j].method, ms[j])),
          Cl("effects", \A j \in 1..Len(ms) : SeqLen(p.blocks) >= j =>
               LET b == p.blocks[j] IN SeqLen(b.rows) = Len(due) /\ \A i \in 1..Len(due) : i <= SeqLen(b.rows) =>
                 LET f == Effect(p.names, p.betas, due[i][1], due[i][2], e.cfg.slx, Total(r), Adi(ms[j], W, r))  t == b.rows[i] IN
                 Same(t[1], due[i][1] \o due[i][2]) /\ Fix4(t[2], f.dir) /\ Fix4(t[3], f.ind) /\ Fix4(t[4], f.tot)) >>
FitCl(e) == FoldLeft(LAMBDA a, p: a \o ImpOf(e, p), <<>>, e.obs.parts)
Stage(s, e) ==
  IF Raised(e) THEN << Cl("no-exception", CASE e.op = "invprod" -> NoConv(e) [] e.op = "imult" -> Unsupported(e.cfg)
                        [] e.op = "fit" -> StrHas(e.exc.msg, "power expansion") /\ e.in.near = 1 [] OTHER -> FALSE) >>
  ELSE CASE e.op = "spmult" -> MultCl(e) [] e.op = "invprod" -> InvCl(e) [] e.op = "filter" -> FltCl(e) [] e.op = "lags" -> LagCl(e)
         [] e.op = "imult" -> << Cl("refused", ~Unsupported(e.cfg)) >> \o ImuCl(e) [] OTHER -> FitCl(e)
TNext == Replay(Stage, 1)
================================================================================
