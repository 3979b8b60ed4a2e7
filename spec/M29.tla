----------------------------------- MODULE M29 -----------------------------------
(* The dimension checks in front of every generating equation, and the               *)
(* configurations replayed: equations, makers and random draws.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Mat, Json, TLC
VARIABLES fn, dim, left, pc
vars == <<fn, dim, left, pc>>
Eq == {"errproc", "ols", "slx", "sperror", "slxerror", "lag", "spdurbin", "lagerr", "gns", "mess", "probit", "heterror"}
Needs(f) == CASE f = "errproc" -> <<"u", "w">> [] f \in {"ols", "probit", "heterror"} -> <<"u", "xb">> [] f = "slx" -> <<"u", "xb", "wxg">>
              [] f \in {"sperror", "lag", "lagerr", "mess"} -> <<"u", "xb", "w">> [] OTHER -> <<"u", "xb", "wxg", "w">>
MInit == fn \in Eq /\ dim \in [{"u", "xb", "wxg", "w"} -> 3..5] /\ left = Tail(Needs(fn)) /\ pc = "check"
\* consecutive arguments are compared
Compare == /\ pc = "check" /\ left # <<>>
           /\ LET prev == Needs(fn)[Len(Needs(fn)) - Len(left)] IN
              IF dim[prev] = dim[Head(left)] THEN left' = Tail(left) /\ pc' = pc ELSE pc' = "none" /\ left' = left
           /\ UNCHANGED <<fn, dim>>
Produce == pc = "check" /\ left = <<>> /\ pc' = "data" /\ UNCHANGED <<fn, dim, left>>
MNext == Compare \/ Produce
Agree == Cardinality({dim[a] : a \in ToSet(Needs(fn))}) = 1
OnlyAgreeing == (pc = "data" => Agree) /\ (pc = "none" => ~Agree)
Dgp == [op : {"dgp"}, fn : Eq, rho : {"-0.8", "-0.3", "0.0", "0.4", "0.7", "0.9"}, lam : {"-0.5", "0.3", "0.8", "default"}, model : {"sar", "ma", "bogus"}, inv : {"power_exp", "true_inv"}, ybin : 0..1,
        bad : {"", "u", "xb", "wxg", "w"}, kind : {"rook", "ring", "knn"}]
Spatial(f) == f \in {"errproc", "sperror", "slxerror", "lag", "spdurbin", "lagerr", "gns"}
OkDgp(c) == /\ (c.bad # "" => c.bad \in ToSet(Needs(c.fn)) /\ c.rho = "0.4" /\ c.lam = "0.3" /\ c.model = "sar" /\ c.ybin = 0)
            /\ (c.fn \notin {"errproc", "sperror", "slxerror", "lagerr", "gns"} => c.model = "sar" /\ c.lam = "0.3")
            /\ (c.fn \in {"errproc", "ols", "sperror", "slxerror", "slx", "probit", "heterror"} => c.rho = "0.4")
            /\ (~Spatial(c.fn) => c.inv = "true_inv") /\ (c.fn \in {"errproc", "ols", "mess", "probit", "heterror"} => c.ybin = 0)
            /\ (c.model = "bogus" => c.bad = "" /\ c.lam = "0.3" /\ c.rho = "0.4") /\ (c.lam = "default" => c.rho = "0.4" /\ c.model = "sar" /\ c.bad = "")
Make == [op : {"make"}, fn : {"wx", "xb", "wxg", "bin", "vlinear", "vgroup", "vuniform", "vbogus"}, k : 1..3, o : 1..5, kind : {"rook", "ring", "knn"}, bad : 0..1]
OkMake(c) == (c.fn # "wx" => c.o = 1 /\ c.kind = "rook") /\ (c.fn \in {"bin", "vlinear", "vbogus"} => c.bad = 0) /\ (c.fn = "wxg" => c.k > 1)
Draw == [op : {"draw"}, fn : {"normal", "laplace", "cauchy", "lognormal", "bogus", "x-uniform", "x-normal", "x-bivnormal", "x-bogus", "x-mismatch", "x-tri"}, mu : 0..2, var : 0..2, cor : {"0.0", "0.6", "-0.8"}]
OkDraw(c) == c.fn = "x-bivnormal" \/ c.cor = "0.0"
Configs == {c \in Dgp : OkDgp(c)} \cup {c \in Make : OkMake(c)} \cup {c \in Draw : OkDraw(c)}
Emit == TLCGet("distinct") > 0 /\ JsonSerialize(Env("GEN_OUT"), SetToSeq(Configs))
================================================================================
