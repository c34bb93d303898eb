---------------------------- MODULE PathGenRuns -----------------------------
(***************************************************************************)
(* Several runs of one generator, on a sequence of timelines.  Between     *)
(* runs nothing is kept but what was given to the constructor: steps, the  *)
(* start index (j from the beginning, or from the end) and the depth.  A   *)
(* run may also end in an error (an illegal proposal), and a run on a      *)
(* timeline that is not one is rejected: neither matters to later runs.    *)
(***************************************************************************)
EXTENDS PathGen

VARIABLES given,     \* what was given to the constructor
          rest,      \* timelines still to be run
          hist       \* what happened in the runs completed

rvars == <<vars, given, rest, hist>>

\* configuration of a run of g on timeline tl
RunCfg(g, tl) ==
  [tl |-> tl, i0 |-> IF g.neg THEN Len(tl) + 1 - g.j ELSE g.j,
   steps |-> g.steps, K |-> g.K]

Ascending(tl) == \A i \in 1..(Len(tl) - 1) : tl[i] < tl[i + 1]

\* a run is accepted on an ascending timeline which has a start point
Accepted(g, tl) == Ascending(tl) /\ g.j <= Len(tl)

InitRuns(g, tls) ==
  /\ given = g /\ rest = Tail(tls) /\ hist = <<>>
  /\ InitCfg(RunCfg(g, Head(tls)))

Report == [tl |-> cfg.tl, out |-> out, log |-> log, phase |-> phase]

Step == /\ Next
        /\ UNCHANGED <<given, rest, hist>>

\* the following run starts from scratch
Again ==
  /\ phase \in {"done", "error"} /\ rest # <<>>
  /\ LET tl == Head(rest)
         reject == ~ Accepted(given, tl)
         c == RunCfg(given, tl)
     IN /\ hist' = Append(hist, Report)
        /\ rest' = Tail(rest)
        /\ win' = <<>> /\ outs' = <<>> /\ pos' = 1 /\ k' = 1
        /\ adapts' = 0 /\ dir' = "-" /\ todo' = <<>>
        /\ IF reject
           THEN /\ phase' = "error"
                /\ log' = <<[e |-> "reject"]>>
                /\ cfg' = [cfg EXCEPT !.tl = tl]
                /\ dirs' = <<>> /\ out' = <<>>
           ELSE /\ phase' = "idle" /\ log' = <<>>
                /\ cfg' = c /\ dirs' = Directions(c)
                /\ out' = [i \in 1..Len(tl) |-> "-"]
  /\ UNCHANGED given

RNext == Step \/ Again

\* the invariants of a single run hold in each of them
RInv == (phase # "error" \/ log # <<[e |-> "reject"]>>) => Inv

\* equal timelines have equal outcomes, whatever came in between (when the
\* callback makes no choices)
Repeatable ==
  MaxAdapt = 0 /\ MaxBad = 0 =>
    LET H == IF phase = "done" THEN Append(hist, Report) ELSE hist
    IN \A a, b \in 1..Len(H) : H[a].tl = H[b].tl => H[a] = H[b]
=============================================================================
