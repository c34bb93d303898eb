--------------------------- MODULE IncrementsGen ---------------------------
EXTENDS Increments, Json, CSV, IOUtils, TLC
A(sh, d) == [shape |-> sh, data |-> d]
TimesA == { A(<<>>, <<1>>), A(<<3>>, <<0, 1, -2>>), A(<<2, 1>>, <<1, 3>>),
            A(<<1>>, <<2>>), A(<<2>>, <<-1, 2>>) }
StepsA == { A(<<>>, <<2>>), A(<<>>, <<-1>>), A(<<>>, <<0>>),
            A(<<3>>, <<1, -2, 0>>), A(<<2, 3>>, <<1, 2, 3, -1, -2, 0>>),
            A(<<2, 1>>, <<4, -1>>), A(<<1, 1>>, <<-3>>), A(<<2>>, <<1, -1>>),
            A(<<1>>, <<-2>>) }
TimesB == TimesA \cup { A(<<1, 3>>, <<4, -4, 0>>), A(<<2, 2>>, <<0, 1, 1, -2>>) }
StepsB == StepsA \cup { A(<<2, 2>>, <<1, -1, 2, 0>>), A(<<2, 1, 1>>, <<-2, 1>>) }
Pc == [a \in 1..paths |-> [b \in 1..paths |-> PathCov(kind, paths, a, b)]]
Export ==
  (Len(log) = MaxCalls \/ ~built) =>
    CSVWrite("%1$s", <<ToJson([law |-> law, kind |-> kind, paths |-> paths,
        built |-> built, log |-> log, pathcov |-> Pc,
        indep |-> Independent(kind, paths)])>>, IOEnv.OUT)
=============================================================================
