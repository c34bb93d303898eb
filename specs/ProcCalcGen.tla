---------------------------- MODULE ProcCalcGen ----------------------------
EXTENDS ProcCalc, Json, CSV, IOUtils
TimesA == {<<0, 1, 5>>, <<-3, 1>>, <<2>>, <<0, 4, 5, 14>>}
ShapesA == {<<>>, <<1>>, <<3>>, <<2, 2>>}
PathsA == {1, 2, 3}
TimesB == {<<0, 1, 5>>, <<1, 2, 4, 5>>}
ShapesB == {<<2>>, <<2, 2>>}
StatsA == {"min", "max", "sum", "mean", "var", "std"}
ExpsA == {0, 1, 2, -1, 50}
ExpsB == {0, 1}
No == [given |-> FALSE, shape |-> <<>>, v |-> <<>>]
T0(s) == [given |-> TRUE, shape |-> <<>>, v |-> <<s>>]
TV(s) == [given |-> TRUE, shape |-> <<Len(s)>>, v |-> s]
U0(s) == [shape |-> <<>>, v |-> <<s>>]
UV(s) == [shape |-> <<Len(s)>>, v |-> s]
U2(s) == [shape |-> <<2, Len(s) \div 2>>, v |-> s]
ChfsA == {No, T0(1), T0(0), T0(-9), TV(<<5, 0, 20>>), TV(<<-3, 1>>)} \X {U0(1), UV(<<0, 1, 3>>), U2(<<1, -1, 2, 5>>)}
CdfsA == {No, T0(1), T0(0), T0(3), TV(<<5, 0, 20>>), TV(<<-1, 2>>)} \X {U0(1), UV(<<0, -2, 5>>), U2(<<-100, 100, 2, 4>>)}
ChfsB == {<<No, UV(<<0, 1, 3>>)>>, <<TV(<<1, 5>>), U0(1)>>}
CdfsB == {<<No, UV(<<0, 1, 4>>)>>, <<TV(<<2, 5>>), U2(<<-1, 0, 1, 2>>)>>}
Export == Len(log) = MaxOps =>
  CSVWrite("%1$s", <<ToJson([init |-> init,
     x0 |-> [q \in 1..(Len(init.t)*Size(init.v)*init.n) |-> Val(init.pat, q)], log |-> log])>>, IOEnv.OUT)
=============================================================================
