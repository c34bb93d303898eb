----------------------------- MODULE Increments -----------------------------
(***************************************************************************)
(* Sources without memory, plain or with antithetic paths.                 *)
(*                                                                         *)
(* A call with times and increments broadcast together yields one          *)
(* independent draw per point (t, dt), described here by its law:          *)
(*   midpoint, length and sign of the interval, the covariance of the      *)
(*   components for Wiener increments (per unit of time), and the          *)
(*   covariance between paths.                                             *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, SequencesExt

CONSTANTS TimeArrays, StepArrays, Laws, Kinds, MaxPaths, MaxCalls

VARIABLES law, kind, paths, built, log
vars == <<law, kind, paths, built, log>>

AbsV(v) == IF v < 0 THEN -v ELSE v
SignV(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0

(***************************************************************************)
(* Arrays [shape, data], data in row-major order, and broadcasting         *)
(***************************************************************************)
Size(sh) == FoldLeft(LAMBDA a, b : a*b, 1, sh)
Pad(sh, n) == [k \in 1..n |-> IF k <= n - Len(sh) THEN 1 ELSE sh[k - (n - Len(sh))]]
MaxI(a, b) == IF a > b THEN a ELSE b
Fits(s1, s2) ==
  LET n == MaxI(Len(s1), Len(s2)) a == Pad(s1, n) b == Pad(s2, n)
  IN \A k \in 1..n : a[k] = b[k] \/ a[k] = 1 \/ b[k] = 1
BShape(s1, s2) ==
  LET n == MaxI(Len(s1), Len(s2)) a == Pad(s1, n) b == Pad(s2, n)
  IN [k \in 1..n |-> IF a[k] = 1 THEN b[k] ELSE a[k]]
\* multi-index (from 0) of the p-th element (from 0) of an array of shape sh
RECURSIVE Unravel(_, _)
Unravel(p, sh) ==
  IF Len(sh) = 0 THEN <<>>
  ELSE LET m == Len(sh) q == Front(sh)
       IN Append(Unravel(p \div sh[m], q), p % sh[m])
RECURSIVE Ravel(_, _)
Ravel(ix, sh) ==
  IF Len(sh) = 0 THEN 0
  ELSE Ravel(Front(ix), Front(sh))*Last(sh) + Last(ix)
Element(a, sh, p) ==
  LET n == Len(sh) s == Pad(a.shape, n) ix == Unravel(p, sh)
  IN a.data[1 + Ravel([k \in 1..n |-> IF s[k] = 1 THEN 0 ELSE ix[k]], s)]

(***************************************************************************)
(* Laws                                                                    *)
(***************************************************************************)
\* correlation at time m2/2
Corr(l, m2) ==
  CASE l = "zero" -> <<0, 1>>
    [] l = "half" -> <<1, 2>>
    [] l = "minus" -> R(-1)
    [] l = "step" -> IF m2 < 3 THEN <<1, 2>> ELSE <<-1, 3>>
    [] l = "linear" -> Norm(m2, 16)
\* matrix given by the correlation vector rho of length n: component i is
\* correlated with component i + n only
RhoMatrix(rho) ==
  LET n == Len(rho)
  IN [i \in 1..(2*n) |-> [j \in 1..(2*n) |->
        IF i = j THEN R(1)
        ELSE IF j = i + n THEN rho[i] ELSE IF i = j + n THEN rho[j] ELSE R(0)]]

Point(l, t, dt) ==
  LET m2 == 2*t + dt  r == Corr(l, m2)
  IN [mid2 |-> m2, len |-> AbsV(dt), sgn |-> SignV(dt),
      m2x2 |-> RhoMatrix(<<r>>),
      m4x4 |-> RhoMatrix(<<r, RMul(r, <<-1, 2>>)>>)]
\* covariance of the increments on two paths, in units of that on one path;
\* antithetic: the second half of the paths mirrors the first
PathCov(kd, n, a, b) ==
  IF kd = "plain" THEN IF a = b THEN 1 ELSE 0
  ELSE LET k == n \div 2
           Src(c) == IF c > k THEN c - k ELSE c
           Sgn(c) == IF kd = "odd" /\ c > k THEN -1 ELSE 1
       IN IF Src(a) = Src(b) THEN Sgn(a)*Sgn(b) ELSE 0
Independent(kd, n) == IF kd = "plain" THEN n ELSE n \div 2

Init == /\ law \in Laws /\ kind \in Kinds /\ paths \in 1..MaxPaths
        /\ log = <<>>
        /\ built = (kind = "plain" \/ paths % 2 = 0)
Call(t, dt) ==
  /\ built /\ Len(log) < MaxCalls
  /\ LET ok == Fits(t.shape, dt.shape)
         sh == BShape(t.shape, dt.shape)
     IN log' = Append(log,
          IF ok THEN [t |-> t, dt |-> dt, ok |-> TRUE, shape |-> sh,
                      points |-> [p \in 1..Size(sh) |->
                        Point(law, Element(t, sh, p - 1), Element(dt, sh, p - 1))]]
          ELSE [t |-> t, dt |-> dt, ok |-> FALSE, shape |-> <<>>, points |-> <<>>])
  /\ UNCHANGED <<law, kind, paths, built>>
Next == \E t \in TimeArrays, dt \in StepArrays : Call(t, dt)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
\* exact mirrors: paths k and n/2 + k are perfectly (anti)correlated
Mirror == (built /\ kind # "plain") =>
  \A a \in 1..(paths \div 2) :
     LET b == a + paths \div 2
     IN /\ PathCov(kind, paths, b, b) = 1
        /\ PathCov(kind, paths, a, b) = (IF kind = "odd" THEN -1 ELSE 1)
        /\ \A c \in 1..paths : c \notin {a, b} => PathCov(kind, paths, a, c) = 0
\* opposite calls have opposite signs and the same law otherwise
Reversal == \A t \in -3..3, d \in -2..2 :
  LET p == Point(law, t, d) q == Point(law, t + d, -d)
  IN /\ p.mid2 = q.mid2 /\ p.len = q.len /\ p.sgn = -q.sgn
     /\ p.m4x4 = q.m4x4
Shapes == \A k \in 1..Len(log) : log[k].ok =>
  /\ Len(log[k].points) = Size(log[k].shape)
  /\ Size(log[k].t.shape) = 1 => log[k].points[1].mid2 = 2*log[k].t.data[1] + log[k].dt.data[1]
Correlation == \A k \in 1..Len(log) : \A p \in 1..Len(log[k].points) :
  LET m == log[k].points[p].m4x4
  IN \A i, j \in 1..4 : m[i][j] = m[j][i] /\ (i # j /\ AbsV(i - j) # 2 => m[i][j] = R(0))
Inv == Mirror /\ Reversal /\ Shapes /\ Correlation
=============================================================================
