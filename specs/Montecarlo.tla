----------------------------- MODULE Montecarlo -----------------------------
(***************************************************************************)
(* Cumulated statistics of batches of samples.                             *)
(*                                                                         *)
(* The state is what the statistics stand for: all the data seen so far,   *)
(* by component of the values (in halves if antithetic values are used),   *)
(* the bins fixed by the first batch, and the views taken so far.  A batch *)
(* has values of shape sh, n paths, and data from a pattern; it may be     *)
(* rejected, which changes nothing.                                        *)
(***************************************************************************)
EXTENDS NdArray, Rat, FiniteSetsExt

CONSTANTS Uses, BinKinds, Shapes, Sizes, Patterns, Indices, MaxOps, MaxViews

VARIABLES use, binkind, vshape, data, bins, views, log
vars == <<use, binkind, vshape, data, bins, views, log>>

Scale == IF use = "all" THEN 1 ELSE 2

(***************************************************************************)
(* Batches: [sh, n, pat]; value of path k (from 1) of component c (from 0) *)
(***************************************************************************)
Val(pat, c, k) ==
  CASE pat = 1 -> (3*k + 2*c) % 5
    [] pat = 2 -> ((k*k + c) % 7) - 2
    [] pat = 3 -> 1 + c
    [] pat = 4 -> IF k = 1 THEN 4 ELSE c - 3
    [] pat = 5 -> k % 2
    [] pat = 0 -> 0   \* stands for values that are not numbers
\* paths of a component, in units of 1/Scale
Used(b, c) ==
  LET h == b.n \div 2
  IN CASE use = "all" -> [k \in 1..b.n |-> Val(b.pat, c, k)]
       [] use = "even" -> [k \in 1..h |-> Val(b.pat, c, k) + Val(b.pat, c, k + h)]
       [] use = "odd" -> [k \in 1..h |-> Val(b.pat, c, k) - Val(b.pat, c, k + h)]

(***************************************************************************)
(* Bins: edges as rationals, from the data of the first batch; by number   *)
(* of bins or by a rule to get it, in a given range or not; or given        *)
(* explicitly by component                                                 *)
(***************************************************************************)
Linear(lo, hi, k) == [j \in 1..(k + 1) |-> RAdd(lo, RMul(RSub(hi, lo), Norm(j - 1, k)))]
AutoRange(xs) ==
  LET lo == Norm(Min({xs[k] : k \in 1..Len(xs)}), Scale)
      hi == Norm(Max({xs[k] : k \in 1..Len(xs)}), Scale)
  IN IF lo = hi THEN <<RSub(lo, <<1, 2>>), RAdd(hi, <<1, 2>>)>> ELSE <<lo, hi>>
\* number of bins by the square root rule: the least k such that bins of the
\* range [lo, hi] are not wider than the spread of the m data in it over sqrt(m)
Within(xs, lo, hi) ==
  {k \in 1..Len(xs) : RLeq(lo, Norm(xs[k], Scale)) /\ RLeq(Norm(xs[k], Scale), hi)}
RootBins(xs, lo, hi) ==
  LET in == Within(xs, lo, hi)
      m == Cardinality(in)
      p == IF m = 0 THEN 0 ELSE Max({xs[k] : k \in in}) - Min({xs[k] : k \in in})
      len == RMul(RSub(hi, lo), R(Scale))
  IN IF p = 0 THEN 1
     ELSE CHOOSE k \in 1..200 :
       /\ RLeq(RMul(RMul(len, len), R(m)), R(k*k*p*p))
       /\ ~RLeq(RMul(RMul(len, len), R(m)), R((k-1)*(k-1)*p*p))
Root(xs, lo, hi) == Linear(lo, hi, RootBins(xs, lo, hi))
Explicit(c) == << R(-2), Norm(c, 4), Norm(3, 2), R(3 + c) >>
Edges(xs, c) ==
  CASE binkind = "none" -> <<>>
    [] binkind = "one" -> LET r == AutoRange(xs) IN Linear(r[1], r[2], 1)
    [] binkind = "four" -> LET r == AutoRange(xs) IN Linear(r[1], r[2], 4)
    [] binkind = "ranged" -> Linear(R(-1), R(3), 4)
    [] binkind = "root" -> LET r == AutoRange(xs) IN Root(xs, r[1], r[2])
    [] binkind = "rootranged" -> Root(xs, R(-1), R(3))
    [] binkind \in {"explicit", "explicit2", "explicit0"} -> Explicit(c)
\* explicit bins are given for values of shape (2,), or ()
BinsFit(sh) == CASE binkind = "explicit" -> sh = <<2>>
                 [] binkind = "explicit2" -> sh = <<2, 2>>
                 [] binkind = "explicit0" -> sh = <<>>
                 [] OTHER -> TRUE

(***************************************************************************)
(* Transitions                                                             *)
(***************************************************************************)
Fresh == data = <<>>
Rejected(b) ==
  \/ use # "all" /\ (b.n % 2) = 1
  \/ ~Fresh /\ ~FitsTo(b.sh, vshape)
  \/ Fresh /\ ~BinsFit(b.sh)
  \/ b.pat = 0   \* only tried where the range of the data is needed

Init == /\ use \in Uses /\ binkind \in BinKinds
        /\ vshape = <<>> /\ data = <<>> /\ bins = <<>> /\ views = <<>> /\ log = <<>>

Update(b) ==
  /\ Len(log) < MaxOps
  /\ b.pat = 0 => Fresh /\ binkind \in {"one", "four", "root"}
  /\ IF Rejected(b)
     THEN /\ UNCHANGED <<use, binkind, vshape, data, bins, views>>
          /\ log' = Append(log, [op |-> "update", b |-> b, ok |-> FALSE])
     ELSE LET sh == IF Fresh THEN b.sh ELSE vshape
              N == Size(sh)
              New0(c) == Used(b, BPos(b.sh, sh, c))
          IN /\ vshape' = sh
             /\ data' = [c \in 1..N |-> (IF Fresh THEN <<>> ELSE data[c]) \o New0(c - 1)]
             /\ bins' = IF Fresh THEN [c \in 1..N |-> Edges(New0(c - 1), c - 1)] ELSE bins
             /\ log' = Append(log, [op |-> "update", b |-> b, ok |-> TRUE])
             /\ UNCHANGED <<use, binkind, views>>

\* views are taken of the whole (of = 0) or of another view
ShapeOf(v) == IF v = 0 THEN vshape ELSE views[v].shape
PosOf(v) == IF v = 0 THEN [k \in 1..Size(vshape) |-> k - 1] ELSE views[v].pos
View(v, idx) ==
  /\ Len(log) < MaxOps /\ ~Fresh /\ Len(views) < MaxViews
  /\ v \in 0..Len(views) /\ IndexOk(ShapeOf(v), idx)
  /\ LET s == Select(ShapeOf(v), idx)
     IN /\ Len(s.pos) > 0
        /\ views' = Append(views, [shape |-> s.shape,
             pos |-> [k \in 1..Len(s.pos) |-> PosOf(v)[s.pos[k] + 1]]])
        /\ log' = Append(log, [op |-> "view", of |-> v, idx |-> idx])
  /\ UNCHANGED <<use, binkind, vshape, data, bins>>

Batches == {[sh |-> sh, n |-> n, pat |-> p] : sh \in Shapes, n \in Sizes, p \in Patterns}
Next == \/ \E b \in Batches : Update(b)
        \/ \E v \in 0..MaxViews, i \in Indices : View(v, i)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Statistics of a component, from its data                                *)
(***************************************************************************)
Pow(v, j) == IF j = 1 THEN v ELSE IF j = 2 THEN v*v ELSE IF j = 3 THEN v*v*v ELSE v*v*v*v
S(xs, j) == FoldLeft(LAMBDA a, b : a + Pow(b, j), 0, xs)
\* central moments, times n^j Scale^j
Central2(xs) == Len(xs)*S(xs, 2) - S(xs, 1)*S(xs, 1)
Central3(xs) == LET n == Len(xs) m == S(xs, 1)
                IN n*n*S(xs, 3) - 3*n*m*S(xs, 2) + 2*m*m*m
Central4(xs) == LET n == Len(xs) m == S(xs, 1)
                IN n*n*n*S(xs, 4) - 4*n*n*m*S(xs, 3) + 6*n*m*m*S(xs, 2) - 3*m*m*m*m
InBin(v, e, j) ==
  LET x == Norm(v, Scale)
  IN RLeq(e[j], x) /\ (RLt(x, e[j+1]) \/ (j = Len(e) - 1 /\ x = e[j+1]))
Counts(xs, e) == [j \in 1..(Len(e) - 1) |->
                    Cardinality({k \in 1..Len(xs) : InBin(xs[k], e, j)})]
Outside(xs, e) ==
  Cardinality({k \in 1..Len(xs) : RLt(Norm(xs[k], Scale), e[1]) \/ RLt(e[Len(e)], Norm(xs[k], Scale))})
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Paths == IF Fresh THEN 0 ELSE Len(data[1])
SamePaths == \A c \in 1..Len(data) : Len(data[c]) = Paths
AllCounted == binkind # "none" => \A c \in 1..Len(data) :
  Sum(Counts(data[c], bins[c])) + Outside(data[c], bins[c]) = Paths
Moments == \A c \in 1..Len(data) :
  Central2(data[c]) >= 0 /\ (Paths = 1 => Central2(data[c]) = 0)
\* shifting the data changes the mean only
Shift == \A c \in 1..Len(data) :
  LET ys == [k \in 1..Paths |-> data[c][k] + 3]
  IN Paths <= 6 => Central2(ys) = Central2(data[c]) /\ Central3(ys) = Central3(data[c])
\* many identical paths in the place of each: averages are unchanged, and
\* counts multiplied
Replicas == \A c \in 1..Len(data) :
  LET ys == data[c] \o data[c]
  IN Paths <= 4 => /\ S(ys, 1) = 2*S(data[c], 1)
                   /\ Central2(ys) = 4*Central2(data[c]) /\ Central3(ys) = 8*Central3(data[c])
                   /\ binkind # "none" => LET m == Counts(data[c], bins[c]) n == Counts(ys, bins[c])
                                         IN \A j \in 1..Len(m) : n[j] = 2*m[j]
Views == \A v \in 1..Len(views) : \A k \in 1..Len(views[v].pos) :
  views[v].pos[k] \in 0..(Size(vshape) - 1)
Inv == SamePaths /\ AllCounted /\ Moments /\ Shift /\ Replicas /\ Views
BinsFixed == [][Fresh \/ bins' = bins]_vars
RejectedChangesNothing ==
  [][ (Len(log') > Len(log) /\ log'[Len(log')].op = "update" /\ ~log'[Len(log')].ok)
       => UNCHANGED <<vshape, data, bins, views>> ]_vars
=============================================================================
