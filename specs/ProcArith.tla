----------------------------- MODULE ProcArith -----------------------------
(***************************************************************************)
(* Combining processes, arrays and scalars with element-wise operations.   *)
(*                                                                         *)
(* Operands are taken from a catalogue of leaves, or from the results of   *)
(* former operations.  The state is the list of results and, as operations *)
(* may be performed in place, the current data of the leaves.              *)
(* A process has a timeline of as many points as its first axis; one with  *)
(* a single point is constant.  A "lost" process is the outcome of array   *)
(* operations that leave it without a timeline.                            *)
(***************************************************************************)
EXTENDS NdArray

CONSTANTS Leaves,       \* sequence of [kind, t, shape]
          Unary, Binary, Ternary,   \* operations
          InPlace,      \* binary operations performed in place
          MaxOps,
          Chained       \* later operations use some earlier result

VARIABLES first,        \* first operand of the first operation
          data,         \* data of the leaves modified
          res,          \* results: [kind, t, shape, data]
          log
vars == <<first, data, res, log>>

Leaf0(k) == [p \in 1..Size(Leaves[k].shape) |-> ((k*11 + p*7 + k*p) % 13) - 4]
Data(k) == IF k \in DOMAIN data THEN data[k] ELSE Leaf0(k)
Init == /\ first \in 1..Len(Leaves)
        /\ data = <<>>
        /\ res = <<>> /\ log = <<>>

\* operands: k > 0 for a leaf, -k for a result
Item(k) == IF k > 0 THEN [kind |-> Leaves[k].kind, t |-> Leaves[k].t,
                          shape |-> Leaves[k].shape, data |-> Data(k)]
           ELSE res[-k]

Fun(op, a, b, c) ==
  CASE op = "neg" -> -a
    [] op = "square" -> a*a
    [] op = "sub" -> a - b
    [] op = "add" -> a + b
    [] op = "mul" -> a*b
    [] op = "max" -> IF a < b THEN b ELSE a
    [] op = "lt" -> IF a < b THEN 1 ELSE 0
    [] op = "clip" -> LET m == IF a < b THEN b ELSE a IN IF m > c THEN c ELSE m
    [] op = "fma" -> a*b + c

IsProc(x) == x.kind \in {"proc", "lost"}
Constant(x) == Len(x.t) = 1
Compatible(x, y) ==
  /\ x.t = y.t \/ Constant(x) \/ Constant(y)
  /\ Len(x.shape) = Len(y.shape)
  /\ \A k \in 2..Len(x.shape) :
       x.shape[k] = y.shape[k] \/ x.shape[k] = 1 \/ y.shape[k] = 1

\* outcome for a sequence of operands
RECURSIVE Joint(_)
Joint(shs) == IF Len(shs) = 1 THEN [ok |-> TRUE, sh |-> shs[1]]
              ELSE LET r == Joint(Front(shs))
                   IN IF r.ok /\ Fits(r.sh, Last(shs))
                      THEN [ok |-> TRUE, sh |-> BShape(r.sh, Last(shs))]
                      ELSE [ok |-> FALSE, sh |-> <<>>]
Outcome(op, xs) ==
  LET n == Len(xs)
      procs == TLCEval(SelectSeq(xs, IsProc))
      \* the common timeline of non constant processes, or that of the
      \* first process
      moving == SelectSeq(procs, LAMBDA x : ~Constant(x))
      t == IF procs = <<>> THEN <<>>
           ELSE IF moving = <<>> THEN procs[1].t ELSE moving[1].t
      j == TLCEval(Joint([k \in 1..n |-> xs[k].shape]))
      ok == /\ \A k \in 1..n : xs[k].kind # "lost"
            /\ \A k, l \in 1..Len(procs) : k < l => Compatible(procs[k], procs[l])
            /\ j.ok
            /\ procs # <<>> => Len(j.sh) > 0 /\ j.sh[1] = Len(t)
      El(k, p) == IF k > n THEN 0 ELSE xs[k].data[BPos(xs[k].shape, j.sh, p) + 1]
  IN IF ~ok THEN [ok |-> FALSE, r |-> [kind |-> "none", t |-> <<>>, shape |-> <<>>, data |-> <<>>]]
     ELSE [ok |-> TRUE,
           r |-> [kind |-> IF procs = <<>> THEN "arr" ELSE "proc",
                  t |-> t, shape |-> j.sh,
                  data |-> TLCEval([p \in 1..Size(j.sh) |->
                     Fun(op, El(1, p-1), El(2, p-1), El(3, p-1))])]]

\* (an operand updated in place stands for the result)
Usable == {i \in 1..Len(res) : res[i].kind # "none" /\ ~log[i].inplace}
Operands == (1..Len(Leaves)) \cup {-k : k \in Usable}
Allowed(ks) ==
  /\ Len(log) < MaxOps
  /\ Len(log) = 0 => ks[1] = first
  /\ \A k \in 1..Len(ks) : ks[k] \in Operands
  /\ (Chained /\ Usable # {})
       => \E k \in 1..Len(ks) : ks[k] < 0

Apply(op, ks) ==
  /\ Allowed(ks)
  /\ LET o == Outcome(op, TLCEval([k \in 1..Len(ks) |-> Item(ks[k])]))
     IN /\ res' = Append(res, o.r)
        /\ log' = Append(log, [op |-> op, on |-> ks, ok |-> o.ok, inplace |-> FALSE])
  /\ UNCHANGED <<first, data>>

\* x op= y, on a leaf that is a process
Update(op, ks) ==
  /\ Allowed(ks) /\ ks[1] > 0 /\ Leaves[ks[1]].kind = "proc"
  /\ LET o == Outcome(op, TLCEval([k \in 1..Len(ks) |-> Item(ks[k])]))
         ok == o.ok /\ o.r.shape = Leaves[ks[1]].shape
     IN /\ res' = Append(res, IF ok THEN o.r ELSE [kind |-> "none", t |-> <<>>, shape |-> <<>>, data |-> <<>>])
        /\ data' = IF ok THEN [k \in DOMAIN data \cup {ks[1]} |->
                                 IF k = ks[1] THEN o.r.data ELSE data[k]] ELSE data
        /\ UNCHANGED first
        /\ log' = Append(log, [op |-> op, on |-> ks, ok |-> ok, inplace |-> TRUE])

Next == Len(log) < MaxOps /\
  \/ \E op \in Unary, a \in Operands : Apply(op, <<a>>)
  \/ \E op \in Binary, a, b \in Operands : Apply(op, <<a, b>>)
  \/ \E op \in InPlace, a, b \in Operands : Update(op, <<a, b>>)
  \/ \E op \in Ternary, a, b, c \in Operands : Apply(op, <<a, b, c>>)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Made == {i \in 1..Len(res) : res[i].kind # "none"}
Matching == \A i \in Made : /\ Len(res[i].data) = Size(res[i].shape)
                            /\ res[i].kind = "proc" => res[i].shape[1] = Len(res[i].t)
\* succeeding and failing do not depend on the order of operands, and
\* results have the time line of any non constant operand
Swap(ks) == [k \in 1..Len(ks) |-> ks[Len(ks) + 1 - k]]
AnyOrder == (log # <<>> /\ ~Last(log).inplace) =>
  LET ks == Last(log).on o == Outcome(Last(log).op, [k \in 1..Len(ks) |-> Item(Swap(ks)[k])])
  IN /\ o.ok = Last(log).ok
     /\ (o.ok => o.r.shape = Last(res).shape /\ (Len(o.r.t) > 1 => o.r.t = Last(res).t))
OwnTimeline == (log # <<>> /\ Last(log).ok) =>
  LET ks == Last(log).on
  IN \A k \in 1..Len(ks) :
       (Item(ks[k]).kind = "proc" /\ ~Constant(Item(ks[k]))) => Last(res).t = Item(ks[k]).t
OperandsKept == [][ ~Last(log').inplace \/ ~Last(log').ok => UNCHANGED data ]_vars
Inv == Matching /\ AnyOrder /\ OwnTimeline
=============================================================================
