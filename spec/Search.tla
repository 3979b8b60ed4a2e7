----------------------------------- MODULE Search ----------------------------------
(* The decision rules of the specification searches, as functions of the outcomes     *)
(* of the tests.  A leaf is <<name, model>>; "!" names a model whose parameters were  *)
(* outside the bounds before anything could be selected.                              *)
LOCAL INSTANCE Sequences
\* forward rule on LM tests: t.lag t.err t.rlag t.rerr : significant, t.le : p(rlag) <= p(rerr), t.ak in {"sig", "not", "fail"}
Forward(t) ==
  IF ~t.lag /\ ~t.err THEN <<"none", "one">>
  ELSE IF t.lag /\ ~t.err THEN <<"lag", "one">>
  ELSE IF ~t.lag /\ t.err THEN <<"err", "one">>
  ELSE IF t.rlag /\ ~t.rerr THEN <<"lag", "r">>
  ELSE IF ~t.rlag /\ t.rerr THEN <<"err", "r">>
  ELSE IF t.rlag /\ t.rerr THEN (IF t.ak = "sig" THEN <<"sarsar", "ak">> ELSE IF t.le THEN <<"lag", "B">> ELSE <<"err", "B">>)
  ELSE IF t.le THEN <<"lag", "N">> ELSE <<"err", "N">>
ModelOf(kind, slx) == CASE kind = "none" -> (IF slx THEN "SLX" ELSE "OLS") [] kind = "lag" -> (IF slx THEN "SDM" ELSE "LAG")
                        [] kind = "err" -> (IF slx THEN "SLX-ERR" ELSE "ERROR") [] kind = "sarsar" -> (IF slx THEN "GNS" ELSE "SARSAR")
ClassicName(f) == CASE f = <<"none", "one">> -> "OLS" [] f = <<"lag", "one">> -> "LAG" [] f = <<"err", "one">> -> "ERROR" [] f = <<"lag", "r">> -> "LAGr" [] f = <<"err", "r">> -> "ERRORr"
                    [] f = <<"lag", "B">> -> "LAG_BR" [] f = <<"err", "B">> -> "ERROR_Br" [] f = <<"lag", "N">> -> "LAG_Nr" [] f = <<"err", "N">> -> "ERROR_Nr" [] OTHER -> "SARSAR"
Classic(t) == LET f == Forward(t) IN <<ClassicName(f), ModelOf(f[1], FALSE)>>
\* t.wx t.rwx: LM and robust LM of WX in the plain regression; t.a the tests there, t.b those with WX included
Pretest(t) == LET slx == t.wx /\ t.rwx  m == ModelOf(Forward(IF slx THEN t.b ELSE t.a)[1], slx) IN <<m, m>>
Koenker(t) == LET m == IF ~t.sd THEN "OLS" ELSE IF t.rwx /\ t.rdl THEN "SDM" ELSE IF t.rdl THEN "LAG" ELSE IF t.rwx THEN "SLX" ELSE "OLS" IN <<m, m>>
\* a set of coefficients: all significant, none, or some with the least significant one named by worst
Same2(m) == <<m, m>>
Gns(t) ==
  CASE t.gns = "fail" -> <<"!GNS", "none">>
    [] t.gns = "all" -> Same2("GNS") [] t.gns = "none" -> Same2("OLS")
    [] t.gns = "lambda" -> (CASE t.sdm = "fail" -> <<"!SDM", "none">> [] t.sdm = "all" -> (IF t.cfh THEN Same2("SDM") ELSE Same2("ERROR")) [] t.sdm = "none" -> Same2("OLS")
                              [] t.sdm = "rho" -> Same2("SLX") [] OTHER -> Same2("LAG"))
    [] t.gns = "rho" -> (CASE t.slxerr = "fail" -> <<"!SLX Error", "none">> [] t.slxerr = "all" -> Same2("SLX-ERR") [] t.slxerr = "none" -> Same2("OLS")
                              [] t.slxerr = "lambda" -> Same2("SLX") [] OTHER -> Same2("ERROR"))
    [] OTHER -> (CASE t.sarsar = "fail" -> <<"!SARSAR", "none">> [] t.sarsar = "all" -> Same2("SARSAR") [] t.sarsar = "none" -> Same2("OLS")
                              [] t.sarsar = "lambda" -> Same2("LAG") [] OTHER -> Same2("ERROR"))
Sdm(t) ==
  CASE t.sdm = "fail" -> <<"!SDM", "none">>
    [] t.sdm = "all" -> (IF ~t.cfh THEN Same2("ERROR") ELSE IF t.aksdm THEN Same2("GNS") ELSE Same2("SDM"))
    [] t.sdm = "none" -> (IF t.err THEN Same2("ERROR") ELSE Same2("OLS"))
    [] t.sdm = "rho" -> (IF t.slxlm THEN <<"SLX-Err", "SLX-ERR">> ELSE Same2("SLX"))
    [] OTHER -> (IF t.lagfit = "fail" THEN <<"!LAG", "none">> ELSE IF t.aklag THEN Same2("SARSAR") ELSE Same2("LAG"))
Leaf(s, t) == CASE s = "classic" -> Classic(t) [] s = "kb" -> Koenker(t) [] s = "pre" -> Pretest(t) [] s = "gns" -> Gns(t) [] s = "sdm" -> Sdm(t)
====================================================================================
