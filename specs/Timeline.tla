------------------------------ MODULE Timeline ------------------------------
(***************************************************************************)
(* Which times a simulation must touch, and in which order.                *)
(* A configuration c has fields tl (strictly increasing output times, in   *)
(* integer ticks), i0 (1-based index of the start time), steps             *)
(* ([kind |-> "none" | "count" | "times", n, times]), K (window depth).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Lo(c) == c.tl[1]
Hi(c) == c.tl[Len(c.tl)]
Start(c) == c.tl[c.i0]

StepTimes(c) ==
  CASE c.steps.kind = "none"  -> {}
    [] c.steps.kind = "times" -> ToSet(c.steps.times)
    [] c.steps.kind = "count" ->
         CASE c.steps.n = 0 -> {}
           [] c.steps.n = 1 -> {Lo(c)}
           [] OTHER -> {Lo(c) + (j*(Hi(c) - Lo(c))) \div (c.steps.n - 1)
                          : j \in 0..(c.steps.n - 1)}

\* every time the simulation must touch
Required(c) ==
  ToSet(c.tl) \cup
     (IF Len(c.tl) = 1 THEN {}
      ELSE {t \in StepTimes(c) : Lo(c) <= t /\ t <= Hi(c)})

Asc(S)  == SetToSortSeq(S, <)
Desc(S) == SetToSortSeq(S, >)

Side(S, c, d) == IF d = "b" THEN Desc({t \in S : t <= Start(c)})
                 ELSE Asc({t \in S : t >= Start(c)})

\* the required times, and the output times, in the order of travel
Route(c, d)   == Side(Required(c), c, d)
Outputs(c, d) == Side(ToSet(c.tl), c, d)

\* directions to be run, in order
Directions(c) ==
  IF Len(c.tl) = 1 THEN <<"f">>
  ELSE (IF c.i0 > 1 THEN <<"b">> ELSE <<>>)
       \o (IF c.i0 < Len(c.tl) THEN <<"f">> ELSE <<>>)

\* a window of K-1 initial points must fit in each direction
Feasible(c) == \A j \in 1..Len(Directions(c)) :
                  Len(Route(c, Directions(c)[j])) >= c.K - 1

Idx(c, t) == CHOOSE i \in 1..Len(c.tl) : c.tl[i] = t
=============================================================================
