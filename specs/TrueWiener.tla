----------------------------- MODULE TrueWiener -----------------------------
(***************************************************************************)
(* The law of a Wiener source with memory.                                 *)
(*                                                                         *)
(* Two components with correlation r(t) are the sum and difference of two  *)
(* independent ones, with variance rates 1 + r(t) and 1 - r(t): the law is *)
(* given by the exact covariances of these two (sg = 1, -1), built up one  *)
(* query at a time as documented:                                          *)
(*   outside the known times, from the outermost of them and the variance  *)
(*   rate at the midpoint of the new interval;                             *)
(*   inside, by the Brownian bridge between the two nearest known times,   *)
(*   with the rates at the midpoints of the two sub-intervals.             *)
(* cov[sg][i][j] is a rational, for the i-th and j-th known time.          *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, SequencesExt

CONSTANTS MaxQueries, Times, Laws, Origins

VARIABLES law, origin, known, cov, queries

vars == <<law, origin, known, cov, queries>>

Sg == <<1, -1>>
AbsV(v) == IF v < 0 THEN -v ELSE v

\* r at time m2/2
Corr(l, m2) ==
  CASE l = "zero" -> <<0, 1>>
    [] l = "half" -> <<1, 2>>
    [] l = "minus" -> R(-1)
    [] l = "step" -> IF m2 < 3 THEN <<1, 2>> ELSE <<-1, 3>>
    [] l = "linear" -> Norm(m2, 16)
\* variance rate of component e
Rate(l, e, m2) == RAdd(R(1), RMul(R(Sg[e]), Corr(l, m2)))

N == Len(known)
\* rank of the new time s among the known ones (kept in order of query)
Below(s) == {i \in 1..N : known[i] < s}
Above(s) == {i \in 1..N : known[i] > s}
MaxOf(S) == CHOOSE i \in S : \A j \in S : known[j] <= known[i]
MinOf(S) == CHOOSE i \in S : \A j \in S : known[j] >= known[i]

Init == /\ law \in Laws /\ origin \in Origins
        /\ known = <<origin>> /\ queries = <<>>
        /\ cov = [e \in 1..2 |-> << <<R(0)>> >>]

Extend(c, row, v) ==
  [i \in 1..(N + 1) |-> [j \in 1..(N + 1) |->
     IF i <= N /\ j <= N THEN c[i][j]
     ELSE IF i = N + 1 /\ j = N + 1 THEN v
     ELSE IF i = N + 1 THEN row[j] ELSE row[i]]]

Outside(s, i) ==
  cov' = [e \in 1..2 |->
     Extend(cov[e], [j \in 1..N |-> cov[e][i][j]],
            RAdd(cov[e][i][i], RMul(Rate(law, e, known[i] + s), R(AbsV(s - known[i])))))]

\* i1 is nearer to the origin than i2
Inside(s, i1, i2) ==
  LET Z(e) == LET A == RMul(Rate(law, e, known[i1] + s), R(AbsV(s - known[i1])))
                  B == RMul(Rate(law, e, s + known[i2]), R(AbsV(known[i2] - s)))
              \* components that do not move
              IN IF RAdd(A, B) = R(0) THEN <<1, 2>> ELSE RDiv(B, RAdd(A, B))
      A(e) == RMul(Rate(law, e, known[i1] + s), R(AbsV(s - known[i1])))
      Row(e) == [j \in 1..N |-> RAdd(RMul(Z(e), cov[e][i1][j]),
                                     RMul(RSub(R(1), Z(e)), cov[e][i2][j]))]
  IN cov' = [e \in 1..2 |->
       Extend(cov[e], Row(e),
         RAdd(RAdd(RMul(Z(e), Row(e)[i1]), RMul(RSub(R(1), Z(e)), Row(e)[i2])),
              RMul(Z(e), A(e))))]

Query(s) ==
  /\ Len(queries) < MaxQueries
  /\ s \notin ToSet(known)
  /\ IF Below(s) = {} THEN Outside(s, MinOf(1..N))
     ELSE IF Above(s) = {} THEN Outside(s, MaxOf(1..N))
     ELSE LET b == MaxOf(Below(s)) a == MinOf(Above(s))
          IN IF known[b] >= origin THEN Inside(s, b, a) ELSE Inside(s, a, b)
  /\ known' = Append(known, s)
  /\ queries' = Append(queries, s)
  /\ UNCHANGED <<law, origin>>

Next == \E s \in Times : Query(s)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties: the order of queries does not matter                        *)
(***************************************************************************)
Min2(a, b) == IF a < b THEN a ELSE b
SameSide(i, j) == (known[i] - origin)*(known[j] - origin) > 0
Dist(i) == AbsV(known[i] - origin)
\* with constant correlation, the law of Brownian motion
Brownian ==
  law \in {"zero", "half", "minus"} =>
    \A e \in 1..2 : \A i, j \in 1..N :
       cov[e][i][j] = IF SameSide(i, j) THEN RMul(Rate(law, e, 0), R(Min2(Dist(i), Dist(j))))
                      ELSE R(0)
\* exact, and independent of the order of queries, for correlations linear
\* in time: variances are integrated over time
Linear ==
  law = "linear" =>
    \A e \in 1..2 : \A i, j \in 1..N :
       LET k == IF Dist(i) < Dist(j) THEN i ELSE j IN
       cov[e][i][j] = IF SameSide(i, j)
                      THEN RMul(Rate(law, e, known[k] + origin), R(Dist(k))) ELSE R(0)
Symmetric == \A e \in 1..2 : \A i, j \in 1..N : cov[e][i][j] = cov[e][j][i]
Positive == \A e \in 1..2 : \A i \in 1..N : known[i] # origin =>
   (RLt(R(0), cov[e][i][i]) \/ (law = "minus" /\ e = 1 /\ cov[e][i][i] = R(0)))
TwoSided == \A e \in 1..2 : \A i, j \in 1..N : ~SameSide(i, j) => cov[e][i][j] = R(0)
Inv == Brownian /\ Linear /\ Symmetric /\ Positive /\ TwoSided
=============================================================================
