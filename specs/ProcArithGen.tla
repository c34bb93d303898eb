---------------------------- MODULE ProcArithGen ----------------------------
EXTENDS ProcArith, SequencesExt, FiniteSets, FiniteSetsExt, Json, CSV, IOUtils, TLC
P(t, v, p) == [kind |-> "proc", t |-> t, shape |-> <<Len(t)>> \o v \o <<p>>]
A(sh) == [kind |-> "arr", t |-> <<>>, shape |-> sh]
L(t, sh) == [kind |-> "lost", t |-> t, shape |-> sh]
T1 == <<0, 1>>
T2 == <<0, 2>>
T3 == <<0, 1, 3>>
C1 == <<5>>
C2 == <<7>>
TimesB == <<T1, T2, T3, C1, C2>>
ValuesB == << <<>>, <<1>>, <<2>>, <<3>>, <<2, 1>>, <<1, 2>> >>
PathsB == <<1, 2, 3>>
ArrsB == << A(<<>>), A(<<1>>), A(<<2>>), A(<<3>>), A(<<2, 1>>), A(<<2, 2>>), A(<<1, 3>>),
            A(<<2, 2, 1>>), A(<<2, 1, 1>>), A(<<1, 2, 1>>) >>
\* arrays never have more axes than the process they are combined with:
\* such pairs are left out on export
LeavesPairs ==
  [k \in 1..90 |-> P(TimesB[((k-1) % 5) + 1], ValuesB[(((k-1) \div 5) % 6) + 1],
                     PathsB[((k-1) \div 30) + 1])]
  \o ArrsB \o << L(T1, <<1, 2>>) >>
LeavesQuick ==
  [k \in 1..32 |-> P(<<T1, T2, C1, C2>>[((k-1) % 4) + 1], <<<<>>, <<1>>, <<2>>, <<2, 1>>>>[(((k-1) \div 4) % 4) + 1],
                     <<1, 2>>[((k-1) \div 16) + 1])]
  \o ArrsB \o << P(T3, <<>>, 2), P(T3, <<2>>, 1), P(T1, <<>>, 3), P(C1, <<3>>, 2), L(T1, <<1, 2>>), L(C1, <<2, 1>>) >>
LeavesTriples == << P(T1, <<>>, 1), P(T1, <<>>, 2), P(T2, <<>>, 2), P(T3, <<>>, 1), P(C1, <<>>, 2), P(C2, <<>>, 1),
   P(T1, <<2>>, 1), P(T2, <<1>>, 2), P(C1, <<2>>, 2), P(C1, <<>>, 3), A(<<>>), A(<<2>>), A(<<2, 1>>) >>
LeavesChains == << P(T1, <<2>>, 1), P(T2, <<2>>, 2), P(C1, <<1>>, 2), P(C2, <<2>>, 1), P(T1, <<1>>, 2),
   A(<<>>), A(<<2, 1>>), P(T1, <<>>, 2) >>
\* all timelines of up to four out of five points
TimelinesAll == SetToSeq({SetToSortSeq(S, LAMBDA a, b : a < b) :
                          S \in {T \in SUBSET (0..4) : Cardinality(T) \in 1..4}})
LeavesTimes == [k \in 1..Len(TimelinesAll) |-> P(TimelinesAll[k], <<>>, (k % 2) + 1)]
\* scalars and arrays with fewer axes only
Sane(l) == LET its == [k \in 1..Len(l.on) |-> IF l.on[k] > 0 THEN Leaves[l.on[k]] ELSE res[-l.on[k]]]
           IN \A i, j \in 1..Len(its) : (its[i].kind = "arr" /\ its[j].kind # "arr")
                => Len(its[i].shape) <= Len(its[j].shape)
SomeProc(l) == \E k \in 1..Len(l.on) : l.on[k] < 0 \/ Leaves[l.on[k]].kind # "arr"
Wanted == Sane(Last(log)) /\ SomeProc(Last(log))
Constr == log = <<>> \/ Wanted
Used == {k \in UNION {{log[i].on[j] : j \in 1..Len(log[i].on)} : i \in 1..Len(log)} : k > 0}
Export == (Len(log) = MaxOps /\ Wanted) =>
  CSVWrite("%1$s", <<ToJson([
    leaves |-> {[k |-> k, kind |-> Leaves[k].kind, t |-> Leaves[k].t, shape |-> Leaves[k].shape,
                 data |-> Leaf0(k), end |-> Data(k)] : k \in Used},
    log |-> log, res |-> res])>>, IOEnv.OUT)
=============================================================================
