-------------------------------- MODULE WhiteRegi -------------------------------
(* The regressors of White's auxiliary regression on an interacted design, as       *)
(* monomials <<regime, a, b>>: the product of variables a and b (1 is the constant) *)
(* among the observations of a regime, or of all (regime 0).                        *)
EXTENDS Regi
IndexOf(c, cs) == CHOOSE j \in 1..Len(cs) : cs[j] = c
Mono(r, a, b) == IF a <= b THEN <<r, a, b>> ELSE <<r, b, a>>
\* columns of different regimes have no observation in common
Disjoint(p, q) == p.r # q.r /\ p.r # 0 /\ q.r # 0
Product(p, q, cs) == Mono(IF p.r = 0 THEN q.r ELSE p.r, IndexOf(p.c, cs), IndexOf(q.c, cs))
Monos(XRs, cs) == {<<0, 1, 1>>} \cup {Mono(XRs[j].r, 1, IndexOf(XRs[j].c, cs)) : j \in 1..Len(XRs)}
  \cup {Product(XRs[p[1]], XRs[p[2]], cs) : p \in {q \in (1..Len(XRs)) \X (1..Len(XRs)) : ~Disjoint(XRs[q[1]], XRs[q[2]])}}
\* the sum of a monomial over the regimes is the monomial of all observations
Dependent(M, nr) == {m \in M : m[1] = 0 /\ \A r \in 1..nr : <<r, m[2], m[3]>> \in M}
WhiteTerms(XRs, cs, nr) == LET M == Monos(XRs, cs) IN M \ Dependent(M, nr)
================================================================================
