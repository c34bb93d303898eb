---------------------------- MODULE TrueSourceGen ----------------------------
EXTENDS TrueSource, Json, CSV, IOUtils, TLC

Q1(t) == [shape |-> "scalar", ts |-> <<t>>]
QV(s) == [shape |-> "vector", ts |-> s]
QM(s) == [shape |-> "matrix", ts |-> s]

ScalarsQuick == {Q1(T(k, 0)) : k \in {-2, 1, 3}} \cup {Q1(T(1, 1)), Q1(T(1, -1)), Q1(T(-2, 1))}
ArraysQuick == ScalarsQuick \cup
  {QV(<<T(3, 0), T(-1, 0), T(1, 0)>>), QV(<<T(2, 1), T(2, 0), T(2, -1)>>),
   QM(<<T(0, 0), T(5, 0), T(4, 0), T(5, 0)>>), QV(<<>>)}

I1(t, d) == [shape |-> "scalar", ts |-> <<t>>, dts |-> <<d>>]
IV(ts, ds) == [shape |-> "vector", ts |-> ts, dts |-> ds]
IncsQuick == {I1(T(1, 0), 2), I1(T(3, 0), -5), I1(T(-2, 0), 0),
              IV(<<T(0, 0), T(1, 0), T(3, 0)>>, <<1, 1, 1>>),
              IV(<<T(1, 0), T(1, 0), T(1, 0)>>, <<-3, 1, 2>>)}

ScalarsMore == {Q1(T(k, o)) : k \in {-3, -1, 1, 2, 4}, o \in {-1, 0, 1}} \cup {Q1(T(0, 0))}
ArraysMore == ArraysQuick \cup ScalarsMore
IncsMore == IncsQuick \cup {I1(T(a, 0), d) : a \in {-2, 0, 2}, d \in {-2, 1, 3}}

Export ==
  Len(log) = MaxOps =>
    CSVWrite("%1$s", <<ToJson([tol |-> tol, origin |-> origin, log |-> log, mem |-> mem])>>, IOEnv.OUT)
=============================================================================
