---------------------------- MODULE TrueCPoisson ----------------------------
(***************************************************************************)
(* A compound Poisson source with memory.  Each event counted by the       *)
(* counting source carries one jump, drawn once, when the outer interval   *)
(* containing the event is generated; a later inner query divides the      *)
(* jumps of an interval between its two parts (which jumps go where is not *)
(* specified: the events are exchangeable).  The value changes, between    *)
(* any two known times, by the sum of the jumps of the events in between.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

VARIABLES
  known,   \* sequence of [t, c, v]: time, counts and values by cell; t increasing
  segs,    \* segs[i][j]: jumps of cell j between known[i] and known[i+1]
  jumps    \* values of all jumps drawn so far; sets in segs are of indices here
vars == <<known, segs, jumps>>

Sum(S, J) == MapThenSumSet(LAMBDA k : J[k], S)
Ts == {known[i].t : i \in 1..Len(known)}
At(s) == CHOOSE i \in 1..Len(known) : known[i].t = s
Cells == 1..Len(known[1].c)
First == known[1]
Final == known[Len(known)]

\* a new last time, the events since the previous one having jumps S[j]
After(s, S, J) ==
  /\ \A u \in Ts : u < s
  /\ known' = Append(known,
       [t |-> s, c |-> [j \in Cells |-> Final.c[j] + Cardinality(S[j])],
        v |-> [j \in Cells |-> Final.v[j] + Sum(S[j], J)]])
  /\ segs' = Append(segs, S)
  /\ jumps' = J
\* a new first time
Before(s, S, J) ==
  /\ \A u \in Ts : u > s
  /\ known' = << [t |-> s, c |-> [j \in Cells |-> First.c[j] - Cardinality(S[j])],
        v |-> [j \in Cells |-> First.v[j] - Sum(S[j], J)]] >> \o known
  /\ segs' = <<S>> \o segs
  /\ jumps' = J
\* a time between known[i] and known[i+1]: the jumps L[j] come before it
Between(i, s, L) ==
  /\ known[i].t < s /\ s < known[i+1].t
  /\ known' = InsertAt(known, i + 1,
       [t |-> s, c |-> [j \in Cells |-> known[i].c[j] + Cardinality(L[j])],
        v |-> [j \in Cells |-> known[i].v[j] + Sum(L[j], jumps)]])
  /\ segs' = SubSeq(segs, 1, i - 1) \o <<L>> \o
             << [j \in Cells |-> segs[i][j] \ L[j]] >> \o
             SubSeq(segs, i + 1, Len(segs))
  /\ UNCHANGED jumps

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Span(i, k, j) == UNION {segs[m][j] : m \in i..(k - 1)}
Conserved ==
  \A i \in 1..Len(known) : \A k \in (i + 1)..Len(known) : \A j \in Cells :
     /\ known[k].c[j] - known[i].c[j] = Cardinality(Span(i, k, j))
     /\ known[k].v[j] - known[i].v[j] = Sum(Span(i, k, j), jumps)
NoDuplicates ==
  \A i, k \in 1..Len(segs) : \A j, l \in Cells :
     <<i, j>> # <<k, l>> => segs[i][j] \cap segs[k][l] = {}
=============================================================================
