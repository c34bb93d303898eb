------------------------------ MODULE NdArray ------------------------------
(* Shapes, broadcasting and basic indexing of arrays in row-major order.    *)
(* Arrays are [shape, data]; indices and positions count from 0.            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Size(sh) == FoldLeft(LAMBDA a, b : a*b, 1, sh)
LOCAL MaxI(a, b) == IF a > b THEN a ELSE b
LOCAL MinI(a, b) == IF a < b THEN a ELSE b
\* prepend unit axes
Pad(sh, n) == [k \in 1..n |-> IF k <= n - Len(sh) THEN 1 ELSE sh[k - (n - Len(sh))]]
Fits(s1, s2) ==
  LET n == MaxI(Len(s1), Len(s2)) a == Pad(s1, n) b == Pad(s2, n)
  IN \A k \in 1..n : a[k] = b[k] \/ a[k] = 1 \/ b[k] = 1
BShape(s1, s2) ==
  LET n == MaxI(Len(s1), Len(s2)) a == Pad(s1, n) b == Pad(s2, n)
  IN [k \in 1..n |-> IF a[k] = 1 THEN b[k] ELSE a[k]]
\* s1 can be broadcast to the shape s2
FitsTo(s1, s2) == Len(s1) <= Len(s2) /\ Fits(s1, s2) /\ BShape(s1, s2) = s2

\* elements between successive positions along each axis
Strides(sh) == TLCEval([k \in 1..Len(sh) |-> Size(SubSeq(sh, k + 1, Len(sh)))])
LOCAL Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Unravel(p, sh) == LET st == Strides(sh) IN TLCEval([k \in 1..Len(sh) |-> (p \div st[k]) % sh[k]])
Ravel(ix, sh) == LET st == Strides(sh) IN Sum([k \in 1..Len(sh) |-> ix[k]*st[k]])
\* position in an array of shape s of the element that, broadcast to sh,
\* is found at position p
BPos(s, sh, p) ==
  LET q == Pad(s, Len(sh)) ix == Unravel(p, sh)
  IN Ravel([k \in 1..Len(sh) |-> IF q[k] = 1 THEN 0 ELSE ix[k]], q)

(***************************************************************************)
(* Basic indexing. Index elements: At(i), Slice(a, b, step) with None for *)
(* a missing bound, Dots, New.                                             *)
(***************************************************************************)
None == 99
At(i) == [k |-> "int", a |-> i, b |-> 0, s |-> 0]
Slice(a, b, s) == [k |-> "slice", a |-> a, b |-> b, s |-> s]
All == Slice(None, None, 1)
Dots == [k |-> "dots", a |-> 0, b |-> 0, s |-> 0]
New == [k |-> "new", a |-> 0, b |-> 0, s |-> 0]

LOCAL Clamp(v, lo, hi) == MaxI(lo, MinI(v, hi))
\* positions selected along an axis of length n
Positions(e, n) ==
  LET lo == IF e.s > 0 THEN 0 ELSE -1
      hi == IF e.s > 0 THEN n ELSE n - 1
      B(v) == Clamp(IF v < 0 THEN v + n ELSE v, lo, hi)
      start == IF e.a = None THEN (IF e.s > 0 THEN 0 ELSE n - 1) ELSE B(e.a)
      stop == IF e.b = None THEN (IF e.s > 0 THEN n ELSE -1) ELSE B(e.b)
      step == IF e.s > 0 THEN e.s ELSE -e.s
      span == IF e.s > 0 THEN stop - start ELSE start - stop
      m == IF span <= 0 THEN 0 ELSE (span + step - 1) \div step
  IN [k \in 1..m |-> start + (k - 1)*e.s]

LOCAL Axes(idx) == Cardinality({k \in 1..Len(idx) : idx[k].k \in {"int", "slice"}})
LOCAL HasDots(idx) == \E k \in 1..Len(idx) : idx[k].k = "dots"
Expand(idx, r) ==
  LET full == [k \in 1..(r - Axes(idx)) |-> All]
      d == CHOOSE k \in 1..Len(idx) : idx[k].k = "dots"
  IN IF HasDots(idx) THEN SubSeq(idx, 1, d - 1) \o full \o SubSeq(idx, d + 1, Len(idx))
     ELSE idx \o full
\* axis of the array (from 1) that element k of an expanded index refers to
LOCAL AxisOf(ex, k) == Cardinality({j \in 1..k : ex[j].k # "new"})
IndexOk(sh, idx) ==
  /\ Axes(idx) <= Len(sh)
  /\ Cardinality({k \in 1..Len(idx) : idx[k].k = "dots"}) <= 1
  /\ LET ex == Expand(idx, Len(sh))
     IN \A k \in 1..Len(ex) : ex[k].k = "int" =>
          LET n == sh[AxisOf(ex, k)] IN -n <= ex[k].a /\ ex[k].a < n
\* the selection: its shape, and the position of each element in the original
Select(sh, idx) ==
  LET ex == TLCEval(Expand(idx, Len(sh)))
      ax == TLCEval([k \in 1..Len(ex) |-> AxisOf(ex, k)])
      sel == TLCEval([k \in 1..Len(ex) |->
        CASE ex[k].k = "new" -> <<0>>
          [] ex[k].k = "int" -> <<IF ex[k].a < 0 THEN ex[k].a + sh[ax[k]] ELSE ex[k].a>>
          [] OTHER -> Positions(ex[k], sh[ax[k]])])
      lens == TLCEval([k \in 1..Len(ex) |-> Len(sel[k])])
      kept == TLCEval(SelectSeq([k \in 1..Len(ex) |-> k], LAMBDA k : ex[k].k # "int"))
      src == TLCEval(SelectSeq([k \in 1..Len(ex) |-> k], LAMBDA k : ex[k].k # "new"))
      st == Strides(sh)
      lst == Strides(lens)
      Pos(p) == Sum([j \in 1..Len(src) |->
        LET k == src[j] IN sel[k][((p \div lst[k]) % lens[k]) + 1]*st[j]])
  IN [shape |-> TLCEval([j \in 1..Len(kept) |-> lens[kept[j]]]),
      pos |-> TLCEval([p \in 1..Size(lens) |-> Pos(p - 1)])]
=============================================================================
