----------------------------------- MODULE Lazy -----------------------------------
(* Attributes computed on first reading: a cell is empty, or holds the value        *)
(* computed from the other cells when it was first read, or the value it was set    *)
(* to.  A cell that holds a value keeps it until it is set.                         *)
EXTENDS Mat, Reg, TLC
Classes == {"ls", "iv", "given", "sp", "y"}
Common == {"utu", "sig2n", "sig2n_k", "vm", "mean_y", "std_y"}
Cells(cls) == CASE cls = "iv" -> Common \cup {"pfora1a2"} [] cls = "y" -> {"mean_y", "std_y"} [] cls = "sp" -> {"j", "wu", "utwuDs", "utwyDs", "t", "trA", "AB", "sig2n"} [] OTHER -> Common
Settable(cls) == IF cls = "sp" THEN {"sig2n"} ELSE IF cls = "y" THEN Cells(cls) ELSE Common
Deps(p) == CASE p \in {"sig2n", "sig2n_k"} -> <<"utu">> [] p = "j" -> <<"t", "sig2n">> [] p = "utwuDs" -> <<"wu", "sig2n">> [] p = "utwyDs" -> <<"sig2n">> [] OTHER -> <<>>
DepsOf(cls, p) == SelectSeq(Deps(p), LAMBDA q: q \in Cells(cls))

\* the definitions, over data d and the values v of the cells they use
Def(cls, p, v, d) ==
  CASE p = "utu" -> SumSq(d.u)
    [] p = "sig2n" -> (IF "utu" \in DOMAIN v THEN v.utu ELSE SumSq(d.u)) // d.n
    [] p = "sig2n_k" -> v.utu // (d.n - d.k)
    [] p = "mean_y" -> Mean(d.y)
    [] p = "std_y" -> StdY(d.y)
    [] p = "vm" -> IF cls = "ls" THEN d.sig2 ** d.xtxi ELSE IF cls = "iv" THEN d.sig2 ** d.varb ELSE d.vm
    [] p = "pfora1a2" -> d.n ** (Tr(d.zthhthi) ** d.varb)
    [] p = "wu" -> d.W ** d.u
    [] p = "t" -> Trace((Tr(d.W) ++ d.W) ** d.W)
    [] p = "trA" -> Trace(d.xtxi ** (Tr(d.x) ** (d.W ** d.x)))
    [] p = "AB" -> LET U == (d.W ++ Tr(d.W)) // 2  z == U ** d.x IN HCat(<<d.xtxi ** (Tr(d.x) ** z), d.xtxi ** (Tr(z) ** z)>>)
    [] p = "utwuDs" -> (Tr(d.u) ** v.wu) // v.sig2n
    [] p = "utwyDs" -> (Tr(d.u) ** (d.W ** d.y)) // v.sig2n
    [] OTHER -> LET wxb == d.W ** d.predy  xw == Tr(d.x) ** wxb IN
               ((Tr(wxb) ** wxb) -- (Tr(xw) ** (d.xtxi ** xw)) ++ (v.t ** v.sig2n)) // (d.n ** v.sig2n)
================================================================================
