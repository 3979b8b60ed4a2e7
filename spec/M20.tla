----------------------------------- MODULE M20 ----------------------------------
(* Balanced panels: reading a wide table (one row per unit, one column per         *)
(* variable and period) into the stacked form (one row per period and unit), and   *)
(* what the block spatial lag and the within transformation connect there.         *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Mat, Json, TLC
VARIABLES cfg, pc, pos, long
vars == <<cfg, pc, pos, long>>
NP == {"PooledOLS", "PanelFE", "PanelRE", "GM_ErrorPooled", "GM_ErrorRE"}
NL == {"ML_ErrorPooled", "ML_ErrorFE", "ML_ErrorRE", "ML_LagFE", "ML_LagRE"}
Old == {"GM_KKP", "Panel_FE_Lag", "Panel_FE_Error", "Panel_RE_Lag", "Panel_RE_Error"}
Tests == {"LMtests", "HausmanLag", "HausmanError"}
\* est, layout, variables, spatial lags of them, which are lagged, a variable without variation in
\* one period, a constant among the variables, periods, an option of the estimator
All == [est : NP \cup NL \cup Old \cup Tests, lay : {"long", "wide", "frame", "wideframe"}, kx : 1..3, slx : 0..2, mask : 0..1,
        flat : 0..1, cst : 0..1, T : 2..4, opt : 0..2]
Ok(c) == /\ (c.est \in Old \cup Tests => c.slx = 0)
         /\ (c.mask = 1 => c.slx > 0 /\ c.kx > 1)
         /\ (c.est \in Tests \cup Old \cup {"ML_LagFE", "ML_LagRE", "ML_ErrorFE", "ML_ErrorRE"} => c.opt < 2)
         /\ (c.est = "GM_KKP" => c.lay \in {"wide", "wideframe"} /\ c.cst = 0)
         /\ (c.flat = 1 => c.T > 2 \/ c.lay \in {"wide", "wideframe"})
Configs == {c \in All : Ok(c)}
\* the exploration of the layouts: units, periods, variables
N == 3
Roots == {c \in Configs : c.est = "PooledOLS" /\ c.slx = 0 /\ c.opt = 0 /\ c.lay \in {"long", "wide"}}
Cell(v, t, i) == [v |-> v, t |-> t, i |-> i]
\* the wide table's columns are grouped by variable, periods in order
WideCol(c, j) == [v |-> j \div c.T, t |-> j % c.T]
MInit == cfg \in Roots /\ pc = "read" /\ pos = 0 /\ long = [v \in 0..(cfg.kx - 1) |-> <<>>]
\* reads one wide column, appending its units to the variable's stacked column
Read == /\ pc = "read" /\ pos < cfg.kx * cfg.T
        /\ LET c == WideCol(cfg, pos) IN long' = [long EXCEPT ![c.v] = @ \o [i \in 1..N |-> Cell(c.v, c.t, i - 1)]]
        /\ pos' = pos + 1 /\ UNCHANGED <<cfg, pc>>
Stop == pc = "read" /\ pos = cfg.kx * cfg.T /\ pc' = "stacked" /\ UNCHANGED <<cfg, pos, long>>
MNext == Read \/ Stop
NT(c) == N * c.T
\* row r (0-based) of the stacked column belongs to period r \div N and unit r % N
Stacked == pc = "stacked" => \A v \in 0..(cfg.kx - 1) :
  /\ Len(long[v]) = NT(cfg)
  /\ \A r \in 0..(NT(cfg) - 1) : long[v][r + 1] = Cell(v, r \div N, r % N)
EveryCellOnce == pc = "stacked" => Cardinality(UNION {ToSet(long[v]) : v \in 0..(cfg.kx - 1)}) = cfg.kx * NT(cfg)
\* the block weights I_T (x) W (W any relation between units) only relate rows of one period
Links(r, s) == r \div N = s \div N /\ r % N # s % N
LagInPeriod == pc = "stacked" => \A r, s \in 0..(NT(cfg) - 1) : Links(r, s) => long[0][r + 1].t = long[0][s + 1].t
\* the within transformation J (x) I_N averages the T rows of one unit
Mates(c, r) == {s \in 0..(NT(c) - 1) : s % N = r % N}
WithinUnit == pc = "stacked" => \A r \in 0..(NT(cfg) - 1) :
  Cardinality(Mates(cfg, r)) = cfg.T /\ {long[0][s + 1].i : s \in Mates(cfg, r)} = {r % N} /\ {long[0][s + 1].t : s \in Mates(cfg, r)} = 0..(cfg.T - 1)
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs))
================================================================================
