-------------------------- MODULE TrueCPoissonBags --------------------------
(***************************************************************************)
(* Long histories of a compound Poisson source with memory: are they those *)
(* of a bag of jumps in each interval and cell, split as times in between  *)
(* are asked for?  Jumps have one of two values, 1 and Big, so that counts *)
(* and values tell how many of each: a bag is a pair <<ones, bigs>>.       *)
(* A trace has t0, c0, v0 (origin, counts and values there), and events    *)
(* [s, c, v, d, mids]: time, counts, values, bag of all jumps drawn so     *)
(* far, twice the times at which the distribution was requested.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, CSV, IOUtils, TLC

CONSTANT Big
VARIABLES known,  \* times, with counts and values by cell, in ascending order
          total,  \* jumps in the intervals between known times
          i, l, verdict
vars == <<known, total, i, l, verdict>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[i]
E == T.events[l]
Cells == 1..Len(T.c0)
Drawn(k) == IF k = 0 THEN <<0, 0>> ELSE T.events[k].d

Init == /\ i \in 1..Len(Traces) /\ l = 1 /\ verdict = "none"
        /\ known = << [t |-> T.t0, c |-> T.c0, v |-> T.v0] >>
        /\ total = <<0, 0>>

\* the bag of the jumps between two known times, at cell j
Bag(a, b, j) ==
  LET dc == b.c[j] - a.c[j] dv == b.v[j] - a.v[j]
  IN << dc - ((dv - dc) \div (Big - 1)), (dv - dc) \div (Big - 1) >>
IsBag(a, b, j) ==
  LET dc == b.c[j] - a.c[j] dv == b.v[j] - a.v[j]
  IN (dv - dc) % (Big - 1) = 0 /\ Bag(a, b, j)[1] >= 0 /\ Bag(a, b, j)[2] >= 0
AreBags(a, b) == \A j \in Cells : IsBag(a, b, j)
Sum(a, b, k) == FoldLeft(LAMBDA x, y : x + y, 0, [j \in Cells |-> Bag(a, b, j)[k]])
All(a, b) == <<Sum(a, b, 1), Sum(a, b, 2)>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>

New == [t |-> E.s, c |-> E.c, v |-> E.v]
Lower == SelectSeq(known, LAMBDA k : k.t < E.s)
Upper == SelectSeq(known, LAMBDA k : k.t > E.s)
At == CHOOSE k \in ToSet(known) : k.t = E.s
Fresh == <<Drawn(l)[1] - Drawn(l - 1)[1], Drawn(l)[2] - Drawn(l - 1)[2]>>
Mids(u) == \A k \in 1..Len(E.mids) : E.mids[k] = u + E.s

Reject(why) == verdict' = why /\ UNCHANGED <<known, total, i, l>>
Add == /\ known' = Lower \o <<New>> \o Upper /\ l' = l + 1
       /\ UNCHANGED <<i, verdict>>
Step ==
  /\ verdict = "none" /\ l <= Len(T.events)
  /\ IF Len(Lower) + Len(Upper) < Len(known) THEN
       IF At = New /\ Fresh = <<0, 0>> THEN l' = l + 1 /\ UNCHANGED <<known, total, i, verdict>>
       ELSE Reject("a known time gives other counts or values, or new jumps")
     ELSE IF Upper = <<>> \/ Lower = <<>> THEN
       LET a == IF Upper = <<>> THEN Last(known) ELSE New
           b == IF Upper = <<>> THEN New ELSE known[1]
           u == IF Upper = <<>> THEN a.t ELSE b.t
       IN IF ~AreBags(a, b) THEN Reject("increments are not made of jumps")
          ELSE IF All(a, b) # Fresh THEN Reject("increments are not those newly drawn")
          ELSE IF ~Mids(u) THEN Reject("jumps not drawn at the midpoint")
          ELSE Add /\ total' = Plus(total, Fresh)
     ELSE IF Fresh # <<0, 0>> THEN Reject("jumps drawn again in a known interval")
     ELSE IF ~AreBags(Last(Lower), New) \/ ~AreBags(New, Upper[1])
       THEN Reject("value does not split the jumps of the interval")
     ELSE Add /\ UNCHANGED total
Accept == /\ verdict = "none" /\ l > Len(T.events) /\ verdict' = "ok"
          /\ UNCHANGED <<known, total, i, l>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_vars

\* no jump is lost or duplicated: those between the first and the last known
\* time are the jumps drawn
Conserved == All(known[1], Last(known)) = total /\ total = Drawn(l - 1)
Sorted == \A k \in 1..(Len(known) - 1) : known[k].t < known[k + 1].t
Inv == Conserved /\ Sorted
Export ==
  verdict # "none" =>
    CSVWrite("%1$s", <<ToJson([i |-> i, ok |-> verdict = "ok", at |-> l, why |-> verdict])>>,
             IOEnv.OUT)
=============================================================================
