----------------------------- MODULE PathGenGen -----------------------------
(* Enumeration of configurations, and export of complete behaviours.        *)
EXTENDS PathGen, Json, CSV, IOUtils, TLC

CONSTANTS MaxPoint, Depths, Counts, Pool, Unit

PoolVisit == {<<>>, <<6>>, <<30, 6>>, <<18, 18, -12>>, <<60, 12, 5>>, <<-6, 42>>, <<1, 2, 35, 34>>}
PoolVisitBig == PoolVisit \cup {<<x>> : x \in {1, 12, 30, 59, 61}} \cup {<<y, x>> : x \in {5, 18, 47}, y \in {-1, 17, 50, 60}}
PoolAdapt == {<<>>, <<6>>, <<30, 8>>, <<-4, 20>>, <<3, 17, 9, 21>>}

Timelines == {Asc(S) : S \in (SUBSET {Unit*i : i \in 0..MaxPoint}) \ {{}}}

StepSpecs ==
  {[kind |-> "none", n |-> 0, times |-> <<>>]}
  \cup {[kind |-> "count", n |-> m, times |-> <<>>] : m \in Counts}
  \cup {[kind |-> "times", n |-> 0, times |-> s] : s \in Pool}

Configs == {c \in [tl : Timelines, i0 : 1..(MaxPoint + 1), steps : StepSpecs, K : Depths]
              : c.i0 <= Len(c.tl)}

Init == \E c \in Configs : Feasible(c) /\ InitCfg(c)
Spec == Init /\ [][Next]_vars

Export ==
  phase \in {"done", "error"} =>
    CSVWrite("%1$s", <<ToJson([cfg |-> cfg, out |-> out, log |-> log, phase |-> phase])>>,
             IOEnv.OUT)
=============================================================================
