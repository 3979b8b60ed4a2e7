----------------------------------- MODULE C24 -----------------------------------
(* Recorded searches, against the decision rules applied to the tests of the models  *)
(* fitted on their own.                                                              *)
EXTENDS Conf, Reg, Search
Sig(e, p) == Lt(p, e.in.p)
Has(v) == ~Same(v, "fail")
LmOf(e, l) == [lag |-> Sig(e, l.lag), err |-> Sig(e, l.err), rlag |-> Sig(e, l.rlag), rerr |-> Sig(e, l.rerr), le |-> Le(l.rlag, l.rerr),
               ak |-> IF Same(l.ak, "fail") THEN "fail" ELSE IF Sig(e, l.ak) THEN "sig" ELSE "not"]
\* coefficients after the constant and x: all, none, or which one is the least significant
SetOf(e, v, last, last2) ==
  IF Same(v, "fail") THEN "fail"
  ELSE LET n == Rows(v)  big == MaxAll(v) IN
       IF Lt(big, e.in.p) THEN "all" ELSE IF Le(e.in.p, MinAll(v)) THEN "none"
       ELSE IF Le(big, At(v, n, 1)) THEN last ELSE IF last2 # "" /\ n > 1 /\ Le(big, At(v, n - 1, 1)) THEN last2 ELSE "wx"
Outcome(e) ==
  LET t == e.in.t IN
  CASE e.cfg.search = "classic" -> LmOf(e, t.a)
    [] e.cfg.search = "kb" -> [sd |-> Sig(e, t.sd), rwx |-> Sig(e, t.rwx), rdl |-> Sig(e, t.rdl)]
    [] e.cfg.search = "pre" -> [wx |-> Sig(e, t.wx), rwx |-> Sig(e, t.rwx), a |-> LmOf(e, t.a), b |-> LmOf(e, t.b)]
    [] e.cfg.search = "gns" -> [gns |-> SetOf(e, t.gns, "lambda", "rho"), sdm |-> SetOf(e, t.sdm, "rho", ""), slxerr |-> SetOf(e, t.slxerr, "lambda", ""),
                                sarsar |-> SetOf(e, t.sarsar, "lambda", "rho"), cfh |-> Has(t.cfh) /\ Sig(e, t.cfh)]
    [] OTHER -> [sdm |-> SetOf(e, t.sdm, "rho", ""), cfh |-> Has(t.cfh) /\ Sig(e, t.cfh), aksdm |-> Has(t.aksdm) /\ Sig(e, t.aksdm), err |-> Sig(e, t.a.err), slxlm |-> Sig(e, t.b.err),
                 lagfit |-> IF Same(t.a.ak, "fail") THEN "fail" ELSE "ok", aklag |-> Has(t.a.ak) /\ Sig(e, t.a.ak)]
FailName(n) == CASE n = "!GNS" -> "Exception: GNS parameters out of bounds" [] n = "!SDM" -> "Exception: SDM parameters out of bounds" [] n = "!SLX Error" -> "Exception: SLX Error parameters out of bounds"
                 [] n = "!SARSAR" -> "Exception: SARSAR parameters out of bounds" [] OTHER -> "Exception: LAG parameters out of bounds"
Title(s) == CASE s = "classic" -> "STGE-Classic" [] s = "kb" -> "STGE-KB" [] s = "pre" -> "STGE-Pre" [] s = "gns" -> "GETS-GNS" [] OTHER -> "GETS-SDM"
SearchCl(e) ==
  LET o == e.obs  lf == Leaf(e.cfg.search, Outcome(e))  failed == lf[2] = "none"
      fit == IF failed THEN "none" ELSE Fld(e.in.fits, lf[2])
      ok == ~failed /\ ~Same(fit, "fail") IN
  << Cl("returned-pair", o.n = 2) >> \o
  IF failed THEN << Cl("failed-name", Same(o.result, FailName(lf[1]))), Cl("failed-model", Same(o.model, "none")) >>
  ELSE IF e.cfg.fin = 0 THEN << Cl("selected", Same(o.result, lf[1])), Cl("no-model", Same(o.model, "none")), Cl("silent", Same(o.printed, "no")) >>
  ELSE IF ok THEN
    << Cl("selected", Same(o.result, lf[1])), Cl("estimator", Same(o.model, fit.cls)),
       Cl("estimates", CloseD(o.betas, fit.betas, 9)), Cl("covariance", CloseVm(o.vm, fit.vm, 7)), Cl("names", Same(o.names, fit.names)),
       Cl("announced", Same(o.printed, "yes")), Cl("summary", Same(o.shown, TRUE)) >>
  ELSE << Cl("unfit-name", StrHas(o.result, lf[1]) /\ StrHas(o.result, " -- Exception")), Cl("unfit-model", Same(o.model, "none")) >>
Stage(s, e) == IF Raised(e) THEN << Cl("no-exception", FALSE) >> ELSE SearchCl(e)
TNext == Replay(Stage, 1)
================================================================================
