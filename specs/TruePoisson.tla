---------------------------- MODULE TruePoisson ----------------------------
(***************************************************************************)
(* A Poisson source with memory: counts of events on a few cells           *)
(* (components and paths), known at some times, extended by one query at a *)
(* time.  The outcome of each random draw is nondeterministic; what is     *)
(* specified is which draw has to be made:                                 *)
(*   outside the known times, a Poisson number of events for the interval  *)
(*   from the outermost known time, with intensity at its midpoint;        *)
(*   between two known times, a binomial split of the events there, in     *)
(*   proportion to time, on the cells that have any; none if no cell has.  *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, SequencesExt

CONSTANTS Origin, Z0, Times, Outcomes, MaxQueries
\* Outcomes: set of pairs, numbers of new events on the two cells

VARIABLES known, log
\* known: sequence of [t, c], increasing in t;  log: the queries
vars == <<known, log>>
Cells == 1..2

Init == known = << [t |-> Origin, c |-> <<Z0, Z0>>] >> /\ log = <<>>

Ts == {known[i].t : i \in 1..Len(known)}
At(s) == CHOOSE i \in 1..Len(known) : known[i].t = s
Pred(s) == CHOOSE i \in 1..Len(known) :
             known[i].t < s /\ \A j \in 1..Len(known) : known[j].t < s => j <= i
AddRec(e) == Append(log, e)
Insert(s, c) ==
  LET low == SelectSeq(known, LAMBDA k : k.t < s)
      high == SelectSeq(known, LAMBDA k : k.t > s)
  IN low \o << [t |-> s, c |-> c] >> \o high
None == [kind |-> "none"]

Requery(s) ==
  /\ s \in Ts
  /\ log' = AddRec([s |-> s, draw |-> None, c |-> known[At(s)].c])
  /\ UNCHANGED known

\* beyond the last known time, or before the first
Outside(s) ==
  /\ s \notin Ts
  /\ \E n \in Outcomes :
       LET up == \A u \in Ts : u < s
           i == IF up THEN Len(known) ELSE 1
           k == known[i]
           c == [j \in Cells |-> IF up THEN k.c[j] + n[j] ELSE k.c[j] - n[j]]
       IN /\ up \/ \A u \in Ts : u > s
          /\ known' = Insert(s, c)
          /\ log' = AddRec([s |-> s, c |-> c,
                draw |-> [kind |-> "poisson", mid2 |-> k.t + s,
                          len |-> IF up THEN s - k.t ELSE k.t - s, n |-> n]])

\* numbers of events, out of n, that may turn out to come first
Split(n) == 0..n
Inside(s) ==
  /\ s \notin Ts
  /\ ~ \A u \in Ts : u < s
  /\ ~ \A u \in Ts : u > s
  /\ LET i == Pred(s)
         a == known[i]  b == known[i+1]
         n == [j \in Cells |-> b.c[j] - a.c[j]]
     IN IF \A j \in Cells : n[j] = 0
        THEN \* the common counts, nothing to draw or to remember
             /\ log' = AddRec([s |-> s, draw |-> None, c |-> a.c])
             /\ UNCHANGED known
        ELSE \E k1 \in Split(n[1]), k2 \in Split(n[2]) :
             LET c == <<a.c[1] + k1, a.c[2] + k2>>
             IN /\ known' = Insert(s, c)
                /\ log' = AddRec([s |-> s, c |-> c,
                     draw |-> [kind |-> "binomial", n |-> n, k |-> <<k1, k2>>,
                               p |-> Norm(s - a.t, b.t - a.t)]])

Next == /\ Len(log) < MaxQueries
        /\ \E s \in Times : Requery(s) \/ Outside(s) \/ Inside(s)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Monotone == \A i \in 1..(Len(known) - 1) : \A j \in Cells :
              known[i].c[j] <= known[i+1].c[j]
AtOrigin == known[At(Origin)].c = <<Z0, Z0>>
\* all counts ever returned, recorded or not, are one non-decreasing history
Consistent == \A i, k \in 1..Len(log) :
   /\ log[i].s = log[k].s => log[i].c = log[k].c
   /\ log[i].s < log[k].s => \A j \in Cells : log[i].c[j] <= log[k].c[j]
Sides == \A i \in 1..Len(log) : \A j \in Cells :
   IF log[i].s < Origin THEN log[i].c[j] <= Z0 ELSE log[i].c[j] >= Z0
Inv == Monotone /\ AtOrigin /\ Consistent /\ Sides
Immutable == [][\A i \in 1..Len(known) :
                  \E k \in 1..Len(known') : known'[k] = known[i]]_vars
=============================================================================
