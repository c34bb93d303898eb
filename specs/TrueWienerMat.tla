---------------------------- MODULE TrueWienerMat ----------------------------
(***************************************************************************)
(* The law of a Wiener source with memory and three components, whose      *)
(* time-dependent correlation matrices do not commute: given the values at *)
(* two known times t1 and t2, the value at s between them is               *)
(*    Z w(t1) + (1 - Z) w(t2) + y,      Z = B (A + B)^-1,                   *)
(* where A and B are the covariances of the increments from t1 to s and    *)
(* from s to t2, and y is independent, with covariance Z A.                *)
(* cov[i][j] is the (rational) matrix of covariances between the values at *)
(* the i-th and at the j-th known time.                                    *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS MaxQueries, Times, Laws, Origins

VARIABLES law, origin, known, cov, queries
vars == <<law, origin, known, cov, queries>>

D == 1..3
AbsV(v) == IF v < 0 THEN -v ELSE v

Mat(F(_, _)) == TLCEval([i \in D |-> [j \in D |-> F(i, j)]])
Zero == Mat(LAMBDA i, j : R(0))
Id == Mat(LAMBDA i, j : IF i = j THEN R(1) ELSE R(0))
Add(P, Q) == Mat(LAMBDA i, j : RAdd(P[i][j], Q[i][j]))
Sub(P, Q) == Mat(LAMBDA i, j : RSub(P[i][j], Q[i][j]))
Scale(c, P) == Mat(LAMBDA i, j : RMul(c, P[i][j]))
Mul(P, Q) == Mat(LAMBDA i, j :
  RAdd(RAdd(RMul(P[i][1], Q[1][j]), RMul(P[i][2], Q[2][j])), RMul(P[i][3], Q[3][j])))
Tr(P) == Mat(LAMBDA i, j : P[j][i])
Nx(i) == (i % 3) + 1
\* cofactor (cyclic indices take care of the sign)
Cof(P, i, j) ==
  RSub(RMul(P[Nx(i)][Nx(j)], P[Nx(Nx(i))][Nx(Nx(j))]),
       RMul(P[Nx(i)][Nx(Nx(j))], P[Nx(Nx(i))][Nx(j)]))
Det(P) == RAdd(RAdd(RMul(P[1][1], Cof(P, 1, 1)), RMul(P[1][2], Cof(P, 1, 2))),
               RMul(P[1][3], Cof(P, 1, 3)))
InvM(P) == LET d == Det(P) IN Mat(LAMBDA i, j : RDiv(Cof(P, j, i), d))

\* correlations (r12, r23, r13)
CorrM(r12, r23, r13) ==
  << <<R(1), r12, r13>>, <<r12, R(1), r23>>, <<r13, r23, R(1)>> >>
\* at time m2/2
Corr(m2) ==
  CASE law = "const" -> CorrM(<<1, 2>>, <<1, 2>>, R(0))
    [] law = "turn"  -> IF m2 < 3 THEN CorrM(<<1, 2>>, R(0), R(0))
                        ELSE CorrM(R(0), <<1, 2>>, R(0))
    [] law = "linear" -> CorrM(<<1, 2>>, Norm(m2, 8), R(0))

N == Len(known)
Below(s) == {i \in 1..N : known[i] < s}
Above(s) == {i \in 1..N : known[i] > s}
MaxOf(S) == CHOOSE i \in S : \A j \in S : known[j] <= known[i]
MinOf(S) == CHOOSE i \in S : \A j \in S : known[j] >= known[i]

Init == /\ law \in Laws /\ origin \in Origins
        /\ known = <<origin>> /\ queries = <<>>
        /\ cov = << <<Zero>> >>

\* row[j]: covariance of the new value with the j-th known one
Extend(row, v) ==
  [i \in 1..(N + 1) |-> [j \in 1..(N + 1) |->
     IF i <= N /\ j <= N THEN cov[i][j]
     ELSE IF i = N + 1 /\ j = N + 1 THEN v
     ELSE IF i = N + 1 THEN row[j] ELSE Tr(row[i])]]

Integral(k, s) == Scale(R(AbsV(s - k)), Corr(k + s))
Outside(s, i) ==
  cov' = Extend([j \in 1..N |-> cov[i][j]], Add(cov[i][i], Integral(known[i], s)))
Inside(s, i1, i2) ==
  LET A == Integral(known[i1], s)
      B == Integral(known[i2], s)
      Z == Mul(B, InvM(Add(A, B)))
      Y == Sub(Id, Z)
      Row == TLCEval([j \in 1..N |-> Add(Mul(Z, cov[i1][j]), Mul(Y, cov[i2][j]))])
  IN cov' = Extend(Row, Add(Add(Mul(Z, Tr(Row[i1])), Mul(Y, Tr(Row[i2]))), Mul(Z, A)))

Query(s) ==
  /\ Len(queries) < MaxQueries
  /\ s \notin ToSet(known)
  /\ IF Below(s) = {} THEN Outside(s, MinOf(1..N))
     ELSE IF Above(s) = {} THEN Outside(s, MaxOf(1..N))
     ELSE LET b == MaxOf(Below(s)) a == MinOf(Above(s))
          IN IF known[b] >= origin THEN Inside(s, b, a) ELSE Inside(s, a, b)
  /\ known' = Append(known, s)
  /\ queries' = Append(queries, s)
  /\ UNCHANGED <<law, origin>>

Next == \E s \in Times : Query(s)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
SameSide(i, j) == (known[i] - origin)*(known[j] - origin) > 0
Nearest(i, j) == IF AbsV(known[i] - origin) <= AbsV(known[j] - origin) THEN i ELSE j
\* covariances are symmetric
Symmetric == \A i, j \in 1..N : cov[i][j] = Tr(cov[j][i])
\* exact, and hence independent of the order of queries, for correlations
\* constant or linear in time: increments are independent, with the
\* covariance integrated over time
Exact ==
  law \in {"const", "linear"} =>
    \A i, j \in 1..N :
      cov[i][j] = IF SameSide(i, j) THEN Integral(origin, known[Nearest(i, j)]) ELSE Zero
TwoSided == \A i, j \in 1..N : ~SameSide(i, j) => cov[i][j] = Zero
Positive == \A i \in 1..N : \A d \in D : known[i] # origin => RLt(R(0), cov[i][i][d][d])
Inv == Symmetric /\ Exact /\ TwoSided /\ Positive
=============================================================================
