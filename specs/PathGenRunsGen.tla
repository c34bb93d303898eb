--------------------------- MODULE PathGenRunsGen ---------------------------
EXTENDS PathGenRuns, Json, CSV, IOUtils, TLC

CONSTANTS MaxPoint, Depths, NRuns, Unit, Specs, Bad

Timelines == {Asc(S) : S \in (SUBSET {Unit*i : i \in 0..MaxPoint}) \ {{}}}
BadTimelines == IF Bad THEN {<<Unit, 0>>, <<0, Unit, Unit>>} ELSE {}

None == [kind |-> "none", n |-> 0, times |-> <<>>]
Count(m) == [kind |-> "count", n |-> m, times |-> <<>>]
Times(s) == [kind |-> "times", n |-> 0, times |-> s]
SomeSpecs == {None, Count(3), Times(<<6, 30>>)}
AllSpecs == SomeSpecs \cup {Count(4), Times(<<18>>), Times(<<-6, 13, 47>>)}

Given == [j : 1..3, neg : BOOLEAN, steps : Specs, K : Depths]

OkFirst(g, tl) == Accepted(g, tl) /\ Feasible(RunCfg(g, tl))
Ok(g, tl) == Accepted(g, tl) => Feasible(RunCfg(g, tl))

Init ==
  \E g \in Given :
    \E t1 \in Timelines :
      /\ OkFirst(g, t1)
      /\ \E r \in [1..(NRuns - 1) -> Timelines \cup BadTimelines] :
           /\ \A i \in 1..(NRuns - 1) : Ok(g, r[i])
           /\ InitRuns(g, <<t1>> \o r)

Spec == Init /\ [][RNext]_rvars

Export ==
  phase \in {"done", "error"} /\ rest = <<>> =>
    CSVWrite("%1$s", <<ToJson([given |-> given, runs |-> Append(hist, Report)])>>,
             IOEnv.OUT)

\* simulation: steps shortened and illegal proposals now and then
=============================================================================
