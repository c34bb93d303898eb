--------------------------- MODULE MontecarloGen ---------------------------
EXTENDS Montecarlo, Json, CSV, IOUtils, TLC
ShapesA == {<<>>, <<2>>, <<1>>, <<3>>}
ShapesB == {<<2>>, <<2, 2>>, <<2, 1>>, <<>>, <<3>>}
PatternsA == {1, 2, 3, 4}
PatternsB == {1, 2, 4, 0}
ShapesC == {<<2>>, <<2, 2>>, <<>>}
ShapesD == {<<2, 2>>}
NoIdx == {}
IdxA == { <<At(0)>>, <<At(-1)>>, <<All>>, <<Slice(1, None, 1)>>, <<Dots>>, <<At(1), At(0)>>,
          <<All, At(1)>>, <<Dots, At(0)>>, <<Slice(None, None, -1)>>, <<>>, <<At(0), All>>,
          <<Dots, Slice(0, 1, 1)>>, <<New, At(1)>>, <<Slice(None, None, 2), Dots>> }
\* number of paths after the first k operations
After(k) == Sum([j \in 1..k |->
  IF log[j].op = "update" /\ log[j].ok
  THEN (IF use = "all" THEN log[j].b.n ELSE log[j].b.n \div 2) ELSE 0])
Stat(c, n) ==
  LET xs == SubSeq(data[c], 1, n)
  IN [s1 |-> S(xs, 1), c2 |-> Central2(xs), c3 |-> Central3(xs), c4 |-> Central4(xs),
      counts |-> IF binkind = "none" THEN <<>> ELSE Counts(xs, bins[c]),
      out |-> IF binkind = "none" THEN 0 ELSE Outside(xs, bins[c])]
Export ==
  (Len(log) = MaxOps /\ ~Fresh) =>
    CSVWrite("%1$s", <<ToJson([use |-> use, scale |-> Scale, binkind |-> binkind,
      vshape |-> vshape, bins |-> bins, views |-> views, log |-> log,
      paths |-> [k \in 1..Len(log) |-> After(k)],
      stats |-> [k \in 1..Len(log) |->
         IF After(k) = 0 \/ (k > 1 /\ After(k) = After(k-1)) THEN <<>>
         ELSE [c \in 1..Len(data) |-> Stat(c, After(k))]],
      explicit |-> IF binkind \in {"explicit", "explicit2"} THEN [c \in 1..4 |-> Explicit(c - 1)]
                   ELSE IF binkind = "explicit0" THEN << Explicit(0) >> ELSE <<>>])>>, IOEnv.OUT)
=============================================================================
