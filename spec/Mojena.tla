---------------------------------- MODULE Mojena ----------------------------------
(* The stopping rule that chooses the number of regimes: scores s of 2, 3, ...        *)
(* clusters are scanned with a window of w; the scan goes on while the next score is   *)
(* below the moving average less trend, lag and 2.75 standard deviations.              *)
EXTENDS Mat, Reg
Window(n, w) == IF w > 0 THEN w ELSE IF n \div 4 >= 2 THEN n \div 4 ELSE IF n > 2 THEN n ELSE 2
Part(s, a, b) == FromSeq([j \in 1..(b - a + 1) |-> s[a + j - 1]] \o <<>>)
\* threshold of test i (0-based), which looks at s[i + w + 1]
Threshold(s, w, i) ==
  LET z == Part(s, i + 1, i + w)  m == SumAll(z) // w  sd == Sqrt(SumSq(z -- m) // w)
      t == Part(s, w, i + w)
      b == Rat(6, w * (w * w - 1)) ** ((2 ** SumAll(FromSeq([j \in 1..(i + 1) |-> j] \o <<>>) (.) t)) -- ((w + 1) ** SumAll(t)))
  IN ((m -- b) -- ((Rat(w - 1, 2)) ** b)) -- (Rat(11, 4) ** sd)
\* outcomes of test i: TRUE goes on; both where the two sides agree to 11 digits
Outcomes(s, w, i) == LET d == Threshold(s, w, i) -- s[i + w + 1]  tiny == Dec("0.00000000001") ** (1 ++ MAbs(s[1])) IN
  IF Le(MAbs(d), tiny) THEN BOOLEAN ELSE {Lt(0, d)}
RECURSIVE Scan(_, _, _)
Scan(s, w, i) == IF i >= Len(s) - w THEN {i + w} ELSE UNION {IF go THEN Scan(s, w, i + 1) ELSE {i + 1 + w} : go \in Outcomes(s, w, i)}
Chosen(s, w) == Scan(s, Window(Len(s), w), 0)
================================================================================
