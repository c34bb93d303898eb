----------------------------- MODULE TrueSource -----------------------------
(***************************************************************************)
(* A stochasticity source with memory (true_source).                       *)
(*                                                                         *)
(* Times are pairs [k, o]: k an integer tick, o a small offset in units of *)
(* 0.6 times the relative tolerance, so that two times coincide when their *)
(* ticks are equal and their offsets differ by at most tol (1, or 0 for a  *)
(* source with no tolerance).                                              *)
(* The memory is the sequence of known times in ascending order. A query   *)
(* is answered with the known time that represents it: its value is the    *)
(* one generated then. Queries are                                         *)
(*   q   : the values at an array of times, evaluated one by one           *)
(*   inc : the increments over (t, dt) for arrays of them                  *)
(* through the source itself (via = 0) or through an indexed view of it.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS MaxOps, QueryArrays, IncArrays, Vias, Tols, Origins

VARIABLES tol, mem, origin, log

vars == <<tol, mem, origin, log>>

T(k, o) == [k |-> k, o |-> o]
Ord(t) == 10*t.k + t.o
Before(a, b) == Ord(a) < Ord(b)
Abs(v) == IF v < 0 THEN -v ELSE v
Same(a, b) == a.k = b.k /\ Abs(a.o - b.o) <= tol

Matches(m, t) == {i \in 1..Len(m) : Same(m[i], t)}
\* a query is unambiguous if at most one known time coincides with it
Clear(m, t) == Cardinality(Matches(m, t)) <= 1

Insert(m, t) ==
  LET lower == SelectSeq(m, LAMBDA u : Before(u, t))
      upper == SelectSeq(m, LAMBDA u : Before(t, u))
  IN lower \o <<t>> \o upper

\* result of one scalar query: memory afterwards, representative, and where
\* the new value came from ("known", "above", "below", "inside")
Query(m, t) ==
  IF Matches(m, t) # {} THEN [mem |-> m, rep |-> m[CHOOSE i \in Matches(m, t) : TRUE], how |-> "known"]
  ELSE [mem |-> Insert(m, t), rep |-> t,
        how |-> IF Before(m[Len(m)], t) THEN "above"
                ELSE IF Before(t, m[1]) THEN "below" ELSE "inside"]

RECURSIVE QueryAll(_, _)
QueryAll(m, ts) ==
  IF ts = <<>> THEN [mem |-> m, reps |-> <<>>, clear |-> TRUE]
  ELSE LET r == Query(m, Head(ts))
           c == Clear(m, Head(ts))
           rest == QueryAll(r.mem, Tail(ts))
       IN [mem |-> rest.mem, reps |-> <<r.rep>> \o rest.reps, clear |-> c /\ rest.clear]

Init == /\ tol \in Tols /\ origin \in Origins /\ mem = <<T(origin, 0)>> /\ log = <<>>

AskValues(a, v) ==
  /\ Len(log) < MaxOps
  /\ LET r == QueryAll(mem, a.ts)
     IN /\ r.clear
        /\ mem' = r.mem
        /\ log' = Append(log, [op |-> "q", arg |-> a, via |-> v, reps |-> r.reps,
                               base |-> <<>>, n |-> Len(r.mem)])
  /\ UNCHANGED <<tol, origin>>

\* increments: values at t + dt minus values at t
AskIncrements(a, v) ==
  /\ Len(log) < MaxOps
  /\ LET ss == [i \in 1..Len(a.ts) |-> T(a.ts[i].k + a.dts[i], 0)]
         r1 == QueryAll(mem, ss)
         r2 == QueryAll(r1.mem, a.ts)
     IN /\ r1.clear /\ r2.clear
        /\ mem' = r2.mem
        /\ log' = Append(log, [op |-> "inc", arg |-> a, via |-> v, reps |-> r1.reps,
                               base |-> r2.reps, n |-> Len(r2.mem)])
  /\ UNCHANGED <<tol, origin>>

Next == \/ \E a \in QueryArrays, v \in Vias : AskValues(a, v)
        \/ \E a \in IncArrays, v \in Vias : AskIncrements(a, v)

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties of the design                                                *)
(***************************************************************************)
Sorted == \A i \in 1..(Len(mem) - 1) : Before(mem[i], mem[i + 1])
OriginKnown == T(origin, 0) \in ToSet(mem)
\* no two known times coincide
Distinct == \A i, j \in 1..Len(mem) : i # j => ~Same(mem[i], mem[j])
\* equal times are answered alike, whenever they are asked for
Repeats ==
  \A a, b \in 1..Len(log) : \A i \in 1..Len(log[a].reps) : \A j \in 1..Len(log[b].reps) :
     (log[a].op = "q" /\ log[b].op = "q" /\ log[a].arg.ts[i] = log[b].arg.ts[j])
        => log[a].reps[i] = log[b].reps[j]
\* nothing known is ever forgotten
Grows == [][ToSet(mem) \subseteq ToSet(mem')]_vars
Inv == Sorted /\ OriginKnown /\ Distinct /\ Repeats
=============================================================================
