-------------------------- MODULE TrueCPoissonTrace --------------------------
(***************************************************************************)
(* Is a recorded history of queries allowed by TrueCPoisson?  A trace has  *)
(*   t0, v0     origin and initial values, by cell                         *)
(*   jumps      the values of all jumps drawn from the distribution        *)
(*   events     the queries [s, c, v, d, mids]: time, counts of the        *)
(*              counting source, values, number of jumps drawn so far,     *)
(*              twice the times at which the distribution was requested    *)
(***************************************************************************)
EXTENDS TrueCPoisson, Json, CSV, IOUtils, TLC

VARIABLES i, l, verdict
tvars == <<known, segs, jumps, i, l, verdict>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[i]
E == T.events[l]
Drawn(k) == IF k = 0 THEN 0 ELSE T.events[k].d
Fresh == (Drawn(l - 1) + 1)..Drawn(l)

Init == /\ i \in 1..Len(Traces) /\ l = 1 /\ verdict = "none"
        /\ known = << [t |-> T.t0, c |-> T.c0, v |-> T.v0] >>
        /\ segs = <<>> /\ jumps = T.jumps

\* subsets of k jumps out of ids adding up to dv; among jumps of equal value,
\* which cannot be told apart, the first ones
Pick(k, ids, dv) ==
  {S \in kSubset(k, ids) :
     /\ Sum(S, jumps) = dv
     /\ \A x \in S : \A y \in ids \ S : jumps[x] = jumps[y] => x < y}

\* disjoint sets of n[j] jumps each, out of ids, adding up to dv[j]
RECURSIVE Assign(_, _, _, _)
Assign(n, dv, ids, j) ==
  IF j > Len(n) THEN {<<>>}
  ELSE UNION { {<<S>> \o r : r \in Assign(n, dv, ids \ S, j + 1)} :
               S \in Pick(n[j], ids, dv[j]) }

Diff(a, b) == [j \in Cells |-> a[j] - b[j]]
Natural(n) == \A j \in Cells : n[j] >= 0
Mids(u, s) == \A k \in 1..Len(E.mids) : E.mids[k] = u + s

\* the ways the specification can explain the event, and go on
Requery == E.s \in Ts
ROk == /\ known[At(E.s)].c = E.c /\ known[At(E.s)].v = E.v /\ Fresh = {}
IsAfter == \A u \in Ts : u < E.s
AOk == Natural(Diff(E.c, Final.c)) /\ (Fresh # {} => Mids(Final.t, E.s))
ASets == Assign(Diff(E.c, Final.c), Diff(E.v, Final.v), Fresh, 1)
IsBefore == \A u \in Ts : u > E.s
BOk == Natural(Diff(First.c, E.c)) /\ (Fresh # {} => Mids(First.t, E.s))
BSets == Assign(Diff(First.c, E.c), Diff(First.v, E.v), Fresh, 1)
Left == CHOOSE k \in 1..Len(segs) : known[k].t < E.s /\ E.s < known[k+1].t
SOk == LET k == Left IN Fresh = {} /\ Natural(Diff(E.c, known[k].c))
                          /\ Natural(Diff(known[k+1].c, E.c))
RECURSIVE Splits(_, _)
Splits(k, j) ==
  IF j > Len(E.c) THEN {<<>>}
  ELSE { <<S>> \o r :
     S \in Pick(E.c[j] - known[k].c[j], segs[k][j], E.v[j] - known[k].v[j]),
     r \in Splits(k, j + 1)}

Reject(why) == /\ verdict' = why /\ UNCHANGED <<known, segs, jumps, i, l>>
Go == l' = l + 1 /\ UNCHANGED <<i, verdict>>
Step ==
  /\ verdict = "none" /\ l <= Len(T.events)
  /\ IF Requery THEN
       IF ROk THEN Go /\ UNCHANGED vars
       ELSE Reject("a known time gives other counts or values, or new jumps")
     ELSE IF IsAfter THEN
       IF ~AOk THEN Reject("decreasing counts or wrong midpoint")
       ELSE LET Q == ASets IN
         IF Q = {} THEN Reject("value is not the sum of newly drawn jumps")
         ELSE Go /\ \E S \in Q : After(E.s, S, jumps)
     ELSE IF IsBefore THEN
       IF ~BOk THEN Reject("decreasing counts or wrong midpoint")
       ELSE LET Q == BSets IN
         IF Q = {} THEN Reject("value is not the sum of newly drawn jumps")
         ELSE Go /\ \E S \in Q : Before(E.s, S, jumps)
     ELSE
       IF ~SOk THEN Reject("decreasing counts or jumps drawn again")
       ELSE LET k == Left Q == Splits(k, 1) IN
         IF Q = {} THEN Reject("value does not split the jumps of the interval")
         ELSE Go /\ \E L \in Q : Between(k, E.s, L)
Accept == /\ verdict = "none" /\ l > Len(T.events)
          /\ verdict' = "ok" /\ UNCHANGED <<known, segs, jumps, i, l>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_tvars
Inv == Conserved /\ NoDuplicates
Export ==
  verdict # "none" =>
    CSVWrite("%1$s", <<ToJson([i |-> i, ok |-> verdict = "ok", at |-> l, why |-> verdict])>>,
             IOEnv.OUT)
=============================================================================
