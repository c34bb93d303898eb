--------------------------- MODULE TrueCPoissonMC ---------------------------
(* All histories of a few queries, with small numbers of events and jumps   *)
(* that may vanish or cancel out.                                           *)
EXTENDS TrueCPoisson
CONSTANTS Times, MaxKnown, MaxEvents
TimesA == {-2, -1, 1, 2}
JumpValues == {-1, 0, 1, 4}

Init == /\ known = << [t |-> 0, c |-> <<0, 0>>, v |-> <<0, 0>>] >>
        /\ segs = <<>> /\ jumps = <<>>
Draw == \E n1, n2 \in 0..MaxEvents : \E y \in [1..(n1 + n2) -> JumpValues] :
          LET m == Len(jumps)
              S == << (m + 1)..(m + n1), (m + n1 + 1)..(m + n1 + n2) >>
          IN \E s \in Times : After(s, S, jumps \o y) \/ Before(s, S, jumps \o y)
Split == \E i \in 1..Len(segs) : \E s \in Times :
          \E A \in SUBSET segs[i][1] : \E B \in SUBSET segs[i][2] :
             Between(i, s, <<A, B>>)
Next == Len(known) < MaxKnown /\ (Draw \/ Split)
Spec == Init /\ [][Next]_vars
\* what was known stays as it was
Immutable == [][\A i \in 1..Len(known) :
                  \E k \in 1..Len(known') : known'[k] = known[i]]_vars
\* jumps are drawn in outer intervals only
DrawnOnce == [][ \/ jumps' = jumps
                 \/ segs' = Append(segs, segs'[Len(segs')])
                 \/ segs' = <<segs'[1]>> \o segs ]_vars
=============================================================================
