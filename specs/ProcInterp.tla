----------------------------- MODULE ProcInterp -----------------------------
(***************************************************************************)
(* Evaluating a process at any time, increments, rebasing to another       *)
(* timeline, and piecewise constant processes.                             *)
(*                                                                         *)
(* The state is a process: its timeline t (integers), values x as rationals*)
(* by time point and cell, the default interpolation kind, and the mode if *)
(* it is a piecewise constant one.  If poly > 0, values are those of a     *)
(* polynomial of that degree, reproduced by splines of that degree.        *)
(***************************************************************************)
EXTENDS NdArray, Rat

CONSTANTS Timelines, Shapes, Modes, Kinds, Queries, Deltas, NewTimes, MaxOps, Polys,
          Writes  \* values may be written in place

VARIABLES init, p,
          other,   \* the process p was rebased from, or to: none, or one
          log
vars == <<init, p, other, log>>

Cells(sh) == Size(Tail(sh))
Val(i, c) == ((5*i*i + 3*c*i + c) % 7) - 3
\* polynomials of degree d, in time and by cell
PolyAt(d, c, s) == RAdd(R(c - 1), RAdd(RMul(R(2 - c), s),
   RAdd(RMul(R(IF d > 1 THEN 1 ELSE 0), RMul(s, s)),
        RMul(R(IF d > 2 THEN 1 + c ELSE 0), RMul(s, RMul(s, s))))))
Data0(z) == [i \in 1..Len(z.t) |-> [c \in 1..Size(z.v) |->
              IF z.poly > 0 THEN PolyAt(z.poly, c, R(z.t[i])) ELSE R(Val(i, c))]]
Init ==
  /\ init \in [t : Timelines, v : Shapes, mode : Modes, poly : Polys]
  /\ init.poly > 0 => Len(init.t) > init.poly /\ init.mode = "no"
  /\ p = [t |-> init.t, shape |-> <<Len(init.t)>> \o init.v,
          x |-> Data0(init),
          kind |-> IF init.mode = "no" THEN "linear" ELSE "nearest",
          mode |-> init.mode, by |-> 1]
  /\ other = <<>>
  /\ log = <<>>

MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
\* value of cell c at time s
At1(s, c, kind) ==
  LET n == Len(p.t)
      i == MaxOf({j \in 1..n : p.t[j] <= s})
      a == p.x[i][c] b == p.x[i+1][c]
      dt == p.t[i+1] - p.t[i]
  IN IF n = 1 \/ s <= p.t[1] THEN p.x[1][c]
     ELSE IF s >= p.t[n] THEN p.x[n][c]
     ELSE IF p.mode = "forward" THEN a
     ELSE IF p.mode = "backward" THEN b
     ELSE CASE kind = "linear" -> RAdd(a, RMul(Norm(s - p.t[i], dt), RSub(b, a)))
            [] kind \in {"previous", "zero"} -> a
            [] kind = "next" -> IF s = p.t[i] THEN a ELSE b
            [] kind = "nearest" -> IF 2*(s - p.t[i]) <= dt THEN a ELSE b
            [] OTHER -> RMul(R(p.by), PolyAt(init.poly, c, R(s)))
\* a break point of a piecewise constant process, where its value is not
\* stated
Break(s) ==
  CASE p.mode = "no" -> FALSE
    [] p.mode = "mid" -> \E i \in 1..(Len(p.t) - 1) : 2*s = p.t[i] + p.t[i+1]
    [] OTHER -> \E i \in 1..Len(p.t) : p.t[i] = s
KindOf(k) == IF k = "default" THEN p.kind ELSE k
Row(s, k) == [c \in 1..Cells(p.shape) |-> At1(s, c, KindOf(k))]
Usable(k) == /\ KindOf(k) \in {"quadratic", "cubic"} => init.poly > 0
             /\ KindOf(k) = "quadratic" => init.poly <= 2 /\ Len(p.t) > 2
             /\ KindOf(k) = "cubic" => Len(p.t) > 3
             /\ p.mode # "no" => k = "default"

Do(e) == log' = Append(log, e) /\ UNCHANGED init
\* s: [shape, v], times in row-major order
Query(s, k) ==
  /\ Usable(k) /\ \A j \in 1..Len(s.v) : ~Break(s.v[j])
  /\ Do([op |-> "call", s |-> s, ds |-> 0, kind |-> k, out |-> [j \in 1..Len(s.v) |-> Row(s.v[j], k)]])
  /\ UNCHANGED <<p, other>>
Increment(s, ds, k) ==
  /\ Usable(k) /\ \A j \in 1..Len(s.v) : ~Break(s.v[j]) /\ ~Break(s.v[j] + ds)
  /\ Do([op |-> "increment", s |-> s, ds |-> ds, kind |-> k, out |-> [j \in 1..Len(s.v) |->
          [c \in 1..Cells(p.shape) |-> RSub(Row(s.v[j] + ds, k)[c], Row(s.v[j], k)[c])]]])
  /\ UNCHANGED <<p, other>>
Rebase(t, k) ==
  /\ Usable(k) /\ init.poly = 0 /\ \A j \in 1..Len(t.v) : ~Break(t.v[j])
  /\ p' = [t |-> t.v, shape |-> <<Len(t.v)>> \o Tail(p.shape),
           x |-> [j \in 1..Len(t.v) |-> Row(t.v[j], k)], kind |-> "linear", mode |-> "no", by |-> 1]
  /\ other' = <<p>>
  /\ Do([op |-> "rebase", s |-> t, ds |-> 0, kind |-> k, out |-> [j \in 1..Len(t.v) |-> Row(t.v[j], k)]])
SetKind(k) ==
  /\ k # "default" /\ p.mode = "no" /\ p.kind # k
  /\ (k = "cubic" => init.poly = 3) /\ (k = "quadratic" => init.poly = 2)
  /\ p' = [p EXCEPT !.kind = k]
  /\ UNCHANGED other
  /\ Do([op |-> "kind", s |-> [shape |-> <<>>, v |-> <<>>], ds |-> 0, kind |-> k, out |-> <<>>])

\* the process rebased from, left as it was by all done since to the other,
\* is used again
Back ==
  /\ other # <<>>
  /\ p' = other[1] /\ other' = <<p>>
  /\ Do([op |-> "back", s |-> [shape |-> <<>>, v |-> <<>>], ds |-> 0, kind |-> "default",
         out |-> other[1].x])

\* values are written in place: all of them multiplied by f, or f added to
\* those of a time point
Scale(f) ==
  /\ p' = [p EXCEPT !.by = f*p.by,
              !.x = [i \in 1..Len(p.t) |-> [c \in 1..Cells(p.shape) |-> RMul(R(f), p.x[i][c])]]]
  /\ UNCHANGED other
  /\ Do([op |-> "scale", s |-> [shape |-> <<>>, v |-> <<f>>], ds |-> 0, kind |-> "default", out |-> p'.x])
Shift(i, f) ==
  /\ init.poly = 0 /\ p.mode = "no" /\ i <= Len(p.t)
  /\ p' = [p EXCEPT !.x[i] = [c \in 1..Cells(p.shape) |-> RAdd(R(f), p.x[i][c])]]
  /\ UNCHANGED other
  /\ Do([op |-> "shift", s |-> [shape |-> <<>>, v |-> <<f>>], ds |-> i, kind |-> "default", out |-> p'.x])

Next == /\ Len(log) < MaxOps
        /\ \/ \E s \in Queries, k \in Kinds : Query(s, k)
           \/ \E s \in Queries, d \in Deltas, k \in Kinds : Increment(s, d, k)
           \/ \E t \in NewTimes, k \in Kinds : Rebase(t, k)
           \/ \E k \in Kinds : SetKind(k)
           \/ Writes /\ (Back \/ Scale(-2) \/ \E i \in 1..3 : Shift(i, 4))
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Shaped == Len(p.x) = Len(p.t) /\ p.shape[1] = Len(p.t)
\* stored values are returned at the points of the timeline
Stored == p.mode = "no" => \A i \in 1..Len(p.t), k \in Kinds :
  Usable(k) => Row(p.t[i], k) = p.x[i]
\* rebasing to the same timeline changes nothing
SameAgain == (log # <<>> /\ log[Len(log)].op = "rebase") =>
  \A i \in 1..Len(p.t) : p.x[i] = log[Len(log)].out[i]
\* values stay between those of the neighbouring points
Between == init.poly = 0 => \A s \in (-3)..10, k \in Kinds : (Usable(k) /\ ~Break(s)) =>
  \A c \in 1..Cells(p.shape) :
    LET v == Row(s, k)[c]
    IN /\ \E i \in 1..Len(p.t) : RLeq(p.x[i][c], v)
       /\ \E i \in 1..Len(p.t) : RLeq(v, p.x[i][c])
Inv == Shaped /\ Stored /\ SameAgain /\ Between
=============================================================================
