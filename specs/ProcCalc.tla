------------------------------ MODULE ProcCalc ------------------------------
(***************************************************************************)
(* Summaries of a process across paths, values or time, time calculus, and *)
(* empirical characteristic and distribution functions.                    *)
(*                                                                         *)
(* The state is the current process: its timeline t (integers), the number *)
(* P of paths, the shape v of values, and x, rationals in row-major order. *)
(* An operation replaces it with the result (or leaves it, if the result   *)
(* is not a process with rational values).                                 *)
(***************************************************************************)
EXTENDS NdArray, Rat

CONSTANTS Timelines, Shapes, Paths, Patterns, Stats, Ddofs, Exps, Chfs, Cdfs, MaxOps

VARIABLES init, p, log
vars == <<init, p, log>>

Val(pat, q) == CASE pat = 1 -> ((q*q + 3*q) % 7) - 3
                 [] pat = 2 -> (5*q) % 3
                 [] pat = 3 -> 2
                 [] pat = 4 -> 4 - q
Init ==
  /\ init \in [t : Timelines, v : Shapes, n : Paths, pat : Patterns]
  /\ p = [t |-> init.t, v |-> init.v, n |-> init.n,
          x |-> [q \in 1..(Len(init.t)*Size(init.v)*init.n) |-> R(Val(init.pat, q))]]
  /\ log = <<>>

RSum(s) == FoldLeft(LAMBDA a, b : RAdd(a, b), <<0, 1>>, s)
RMin(s) == FoldLeft(LAMBDA a, b : IF RLt(b, a) THEN b ELSE a, s[1], s)
RMax(s) == FoldLeft(LAMBDA a, b : IF RLt(a, b) THEN b ELSE a, s[1], s)
Stat(f, s, ddof) ==
  LET n == Len(s)
  IN CASE f = "min" -> RMin(s) [] f = "max" -> RMax(s) [] f = "sum" -> RSum(s)
       [] f = "mean" -> RDiv(RSum(s), R(n))
       [] f \in {"var", "std"} ->     \* for std, its square
          RDiv(RSub(RMul(R(n), RSum([k \in 1..n |-> RMul(s[k], s[k])])), RMul(RSum(s), RSum(s))),
               R(n*(n - ddof)))

N(z) == Len(z.t)
M(z) == Size(z.v)
\* element at time i, value m, path k, from 0
El(z, i, m, k) == z.x[i*M(z)*z.n + m*z.n + k + 1]
\* summaries along an axis
Across(z, ax, f, d) ==
  CASE ax = "p" -> [t |-> z.t, v |-> z.v, n |-> 1,
          x |-> TLCEval([q \in 1..(N(z)*M(z)) |-> Stat(f, TLCEval([k \in 1..z.n |-> z.x[(q-1)*z.n + k]]), d)])]
    [] ax = "v" -> [t |-> z.t, v |-> <<>>, n |-> z.n,
          x |-> TLCEval([q \in 1..(N(z)*z.n) |->
             Stat(f, TLCEval([m \in 1..M(z) |-> El(z, (q-1) \div z.n, m - 1, (q-1) % z.n)]), d)])]
    [] ax = "t" -> [t |-> <<z.t[1]>>, v |-> z.v, n |-> z.n,
          x |-> TLCEval([q \in 1..(M(z)*z.n) |->
             Stat(f, TLCEval([i \in 1..N(z) |-> z.x[(i-1)*M(z)*z.n + q]]), d)])]
Count(z, ax) == CASE ax = "p" -> z.n [] ax = "v" -> M(z) [] ax = "t" -> N(z)
W(z) == M(z)*z.n        \* elements at each time point
Row(z, i) == SubSeq(z.x, (i-1)*W(z) + 1, i*W(z))
Flat(rows) == FoldLeft(LAMBDA a, b : a \o b, <<>>, rows)
CumSum(z) == [z EXCEPT !.x = TLCEval([q \in 1..Len(z.x) |->
    RSum([i \in 1..(((q-1) \div W(z)) + 1) |-> z.x[(i-1)*W(z) + ((q-1) % W(z)) + 1]])])]
\* dt to the power e: e = 0, 1, 2, -1, or 50 for one half
Power(dt, e) ==
  CASE e = 0 -> R(1) [] e = 1 -> R(dt) [] e = 2 -> R(dt*dt) [] e = -1 -> Norm(1, dt)
    [] e = 50 -> R(CHOOSE r \in 1..dt : r*r = dt)
HasPower(z, e) == e = 50 => \A i \in 1..(N(z) - 1) :
   \E r \in 1..(z.t[i+1] - z.t[i]) : r*r = z.t[i+1] - z.t[i]
Diff(z, e, fwd) ==
  [t |-> IF fwd THEN Front(z.t) ELSE Tail(z.t), v |-> z.v, n |-> z.n,
   x |-> TLCEval([q \in 1..((N(z) - 1)*W(z)) |->
      LET i == ((q-1) \div W(z)) + 1
      IN RDiv(RSub(z.x[q + W(z)], z.x[q]), Power(z.t[i+1] - z.t[i], e))])]
Int0(z) == [z EXCEPT !.x = TLCEval([q \in 1..Len(z.x) |->
      RSum([i \in 1..((q-1) \div W(z)) |->
         RMul(R(z.t[i+1] - z.t[i]), z.x[(i-1)*W(z) + ((q-1) % W(z)) + 1])])])]

\* values at time s, by linear interpolation
At1(z, s) ==
  LET n == N(z)
      i == CHOOSE j \in 1..n : z.t[j] <= s /\ (j = n \/ s < z.t[j+1])
  IN IF n = 1 \/ s <= z.t[1] THEN Row(z, 1)
     ELSE IF s >= z.t[n] THEN Row(z, n)
     ELSE [q \in 1..W(z) |-> LET a == Row(z, i)[q] b == Row(z, i+1)[q]
            IN RAdd(a, RMul(Norm(s - z.t[i], z.t[i+1] - z.t[i]), RSub(b, a)))]
\* rows at the times asked: all of the timeline if given is FALSE
RowsAt(z, ts) == IF ~ts.given THEN [i \in 1..N(z) |-> Row(z, i)]
                 ELSE [j \in 1..Len(ts.v) |-> TLCEval(At1(z, ts.v[j]))]
\* powers of the imaginary unit
Re(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Im(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
Integer(rows) == \A j \in 1..Len(rows) : \A q \in 1..Len(rows[j]) : rows[j][q][2] = 1
\* chf at u, in units of half pi: for each time, u and value, [re, im]
Chf(z, rows, us) ==
  [j \in 1..Len(rows) |-> [l \in 1..Len(us) |-> [m \in 1..M(z) |->
     LET e == [k \in 1..z.n |-> (us[l]*rows[j][(m-1)*z.n + k][1]) % 4]
     IN << Norm(FoldLeft(LAMBDA a, b : a + b, 0, [k \in 1..z.n |-> Re(e[k])]), z.n),
           Norm(FoldLeft(LAMBDA a, b : a + b, 0, [k \in 1..z.n |-> Im(e[k])]), z.n) >>]]]
\* cdf at xs, in halves
Cdf(z, rows, xs) ==
  [j \in 1..Len(rows) |-> [l \in 1..Len(xs) |-> [m \in 1..M(z) |->
     Norm(Cardinality({k \in 1..z.n : RLeq(rows[j][(m-1)*z.n + k], Norm(xs[l], 2))}), z.n)]]]

(***************************************************************************)
(* Transitions                                                             *)
(***************************************************************************)
Entry(op) == [op |-> op, ax |-> "-", ddof |-> 0, exp |-> 0, fwd |-> TRUE,
              ts |-> [given |-> FALSE, shape |-> <<>>, v |-> <<>>],
              us |-> [shape |-> <<>>, v |-> <<>>], out |-> <<>>, res |-> p]
Do(e, z) == log' = Append(log, [e EXCEPT !.res = z]) /\ UNCHANGED init
Small(z) == \A q \in 1..Len(z.x) : z.x[q][2] < 400 /\ z.x[q][1] < 2000 /\ z.x[q][1] > -2000
Becomes(e, z) == Do(e, z) /\ p' = z
Summary(ax, f, d) ==
  /\ d > 0 => f \in {"var", "std"}
  /\ Count(p, ax) > d
  /\ LET z == TLCEval(Across(p, ax, f, d))
         e == [Entry(f) EXCEPT !.ax = ax, !.ddof = d]
     IN IF f = "std" THEN Do(e, z) /\ UNCHANGED p ELSE Becomes(e, z)
TDiff(e, fwd) == /\ N(p) > 1 /\ HasPower(p, e)
                 /\ Becomes([Entry("tdiff") EXCEPT !.exp = e, !.fwd = fwd], TLCEval(Diff(p, e, fwd)))
TDer == N(p) > 1 /\ Becomes(Entry("tder"), TLCEval(Diff(p, 1, TRUE)))
TInt == Becomes(Entry("tint"), TLCEval(Int0(p)))
TCumSum == Becomes(Entry("tcumsum"), TLCEval(CumSum(p)))
ChfAt(ts, us) ==
  LET rows == TLCEval(RowsAt(p, ts))
  IN /\ Integer(rows) /\ UNCHANGED p
     /\ Do([Entry("chf") EXCEPT !.ts = ts, !.us = us, !.out = TLCEval(Chf(p, rows, us.v))], p)
CdfAt(ts, xs) ==
  /\ UNCHANGED p
  /\ Do([Entry("cdf") EXCEPT !.ts = ts, !.us = xs,
         !.out = TLCEval(Cdf(p, TLCEval(RowsAt(p, ts)), xs.v))], p)

Next == /\ Len(log) < MaxOps /\ Small(p)
        /\ \/ \E ax \in {"p", "v", "t"}, f \in Stats, d \in Ddofs : Summary(ax, f, d)
           \/ \E e \in Exps, fwd \in BOOLEAN : TDiff(e, fwd)
           \/ TDer \/ TInt \/ TCumSum
           \/ \E c \in Chfs : ChfAt(c[1], c[2])
           \/ \E c \in Cdfs : CdfAt(c[1], c[2])
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Shaped == Len(p.x) = N(p)*W(p)
\* differencing undoes summing, and the other way round
Undone == Small(p) => (N(p) > 1 =>
  /\ Diff(Int0(p), 1, TRUE).x = SubSeq(p.x, 1, (N(p) - 1)*W(p))
  /\ LET y == Int0(Diff(p, 1, TRUE))
     IN \A q \in 1..Len(y.x) : y.x[q] = RSub(p.x[q], p.x[((q-1) % W(p)) + 1]))
Ordered == Small(p) => \A ax \in {"p", "v", "t"} :
  LET lo == Across(p, ax, "min", 0) hi == Across(p, ax, "max", 0) mu == Across(p, ax, "mean", 0)
      va == Across(p, ax, "var", 0)
  IN \A q \in 1..Len(lo.x) : /\ RLeq(lo.x[q], mu.x[q]) /\ RLeq(mu.x[q], hi.x[q])
                             /\ va.x[q][1] >= 0 /\ (lo.x[q] = hi.x[q] <=> va.x[q][1] = 0)
Inv == Shaped /\ Undone /\ Ordered
=============================================================================
