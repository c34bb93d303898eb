--------------------------- MODULE ProcInterpGen ---------------------------
EXTENDS ProcInterp, Json, CSV, IOUtils, TLC
S0(v) == [shape |-> <<>>, v |-> <<v>>]
S1(v) == [shape |-> <<Len(v)>>, v |-> v]
S2(v) == [shape |-> <<2, Len(v) \div 2>>, v |-> v]
TimesA == {<<0, 2, 6>>, <<-2, 0, 3, 8>>, <<0, 4>>, <<3>>, <<-1, 1, 2, 4, 7>>}
ShapesA == {<<1>>, <<2>>, <<2, 3>>, <<1, 2, 2>>}
QueriesA == {S0(v) : v \in -3..9} \cup {S1(<<-5, 0, 1, 2, 3, 5, 6, 9>>), S1(<<5, 1, -2>>), S1(<<4>>),
             S2(<<-4, 1, 2, 5, 3, 10>>)}
DeltasA == {-3, 0, 1, 4}
NewA == {S0(1), S0(9), S1(<<1, 3, 5>>), S1(<<-4, 0, 2>>), S1(<<5>>), S1(<<1, 2, 3, 7, 12>>)}
KindsA == {"default", "linear", "nearest", "previous", "next", "zero"}
QueriesB == {S0(v) : v \in -3..8} \cup {S1(<<-1, 1, 3>>), S2(<<-1, 5, 7, 9>>)}
TimesB == {<<0, 2, 6>>, <<-2, 0, 4, 8>>, <<3>>, <<0, 4>>}
QueriesC == {S0(-1), S0(3), S1(<<-5, 0, 1, 2, 3, 5, 6, 9>>), S2(<<-4, 1, 2, 5, 3, 10>>)}
NewC == {S0(1), S1(<<1, 3, 5>>), S1(<<-4, 0, 2>>), S1(<<0, 2, 6>>), S0(3)}
KindsC == {"default", "linear", "nearest", "next"}
ShapesC == {<<2>>, <<2, 2>>}
ShapesS == {<<2>>}
DeltasC == {-3, 2}
QueriesW == {S0(3), S1(<<-4, 1, 2, 5, 3, 10>>)}
DeltasW == {2}
TimesW == {<<0, 2, 6>>, <<-2, 0, 3, 8>>, <<3>>}
TimesS == {<<0, 2, 6>>, <<-1, 1, 2, 4, 7>>}
KindsW == {"default", "nearest"}
KindsS == {"default", "quadratic", "cubic"}
NewW == {S1(<<1, 3, 5>>), S1(<<0, 2, 6>>), S1(<<3>>)}
NoTimes == {}
Export == Len(log) = MaxOps =>
  CSVWrite("%1$s", <<ToJson([init |-> init, x0 |-> Data0(init), log |-> log])>>, IOEnv.OUT)
=============================================================================
