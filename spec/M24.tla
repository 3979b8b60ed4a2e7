----------------------------------- MODULE M24 -----------------------------------
(* All outcomes of all tests of all searches, and the configurations replayed.       *)
EXTENDS Search, Integers, Sequences, FiniteSets, SequencesExt, Mat, Json, TLC
VARIABLES search, t, pc, leaf
vars == <<search, t, pc, leaf>>
Lm == {r \in [lag : BOOLEAN, err : BOOLEAN, rlag : BOOLEAN, rerr : BOOLEAN, le : BOOLEAN, ak : {"sig", "not", "fail"}] :
         /\ (r.rlag /\ ~r.rerr => r.le) /\ (~r.rlag /\ r.rerr => ~r.le)}
GnsT == [gns : {"fail", "all", "none", "lambda", "rho", "wx"}, sdm : {"fail", "all", "none", "rho", "wx"}, slxerr : {"fail", "all", "none", "lambda", "wx"},
         sarsar : {"fail", "all", "none", "lambda", "rho"}, cfh : BOOLEAN]
SdmT == [sdm : {"fail", "all", "none", "rho", "wx"}, cfh : BOOLEAN, aksdm : BOOLEAN, err : BOOLEAN, slxlm : BOOLEAN, lagfit : {"ok", "fail"}, aklag : BOOLEAN]
PreT == [wx : BOOLEAN, rwx : BOOLEAN, a : Lm, b : Lm]
KbT == [sd : BOOLEAN, rwx : BOOLEAN, rdl : BOOLEAN]
MInit == /\ ((search = "classic" /\ t \in Lm) \/ (search = "kb" /\ t \in KbT) \/ (search = "pre" /\ t \in PreT) \/ (search = "gns" /\ t \in GnsT) \/ (search = "sdm" /\ t \in SdmT))
         /\ pc = "search" /\ leaf = <<"", "">>
Decide == pc = "search" /\ leaf' = Leaf(search, t) /\ pc' = "done" /\ UNCHANGED <<search, t>>
MNext == Decide
Models == {"OLS", "LAG", "ERROR", "SARSAR", "SLX", "SDM", "SLX-ERR", "GNS"}
Done == pc = "done"
\* a decision for every outcome; nothing is selected only where a needed model failed
Total == Done => leaf[2] \in Models \cup {"none"}
OnlyFailure == Done /\ leaf[2] = "none" => \/ (search = "gns" /\ (t.gns = "fail" \/ t.sdm = "fail" \/ t.slxerr = "fail" \/ t.sarsar = "fail"))
                                             \/ (search = "sdm" /\ (t.sdm = "fail" \/ t.lagfit = "fail"))
\* significance of nothing selects the plain regression
NothingFound == Done /\ ((search = "classic" /\ ~t.lag /\ ~t.err) \/ (search = "kb" /\ ~t.sd) \/ (search = "pre" /\ ~t.wx /\ ~t.a.lag /\ ~t.a.err)
                          \/ (search = "gns" /\ t.gns = "none") \/ (search = "sdm" /\ t.sdm = "none" /\ ~t.err)) => leaf[2] = "OLS"
\* the forward searches pick a lag or error process only if one of its tests is significant
Warranted == Done /\ search = "classic" => (leaf[2] \in {"LAG", "SARSAR"} => t.lag) /\ (leaf[2] \in {"ERROR", "SARSAR"} => t.err)
WxKept == Done /\ search = "pre" => ((leaf[2] \in {"SLX", "SDM", "SLX-ERR", "GNS"}) <=> (t.wx /\ t.rwx))
\* every published outcome is reachable
Run == [search : {"classic", "kb", "pre", "gns", "sdm"}, dgp : {"none", "lag", "error", "sarsar", "slx", "sdm", "slxerr", "gns", "cfr"}, strong : 0..2, kx : 1..3, names : 0..1,
        fin : 0..1, wl : 1..2, thr : 0..9, draw : 0..3]
Ok(c) == c.fin = 1 \/ (c.thr = c.kx /\ c.draw = 0)
Configs == {c \in Run : Ok(c)}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs))
================================================================================
