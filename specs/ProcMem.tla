------------------------------ MODULE ProcMem ------------------------------
(***************************************************************************)
(* Processes and arrays derived from a process, and the memory they share. *)
(*                                                                         *)
(* Memory is a list of buffers of cells.  An object refers to the cells of *)
(* its values (and, a process, of its timeline), in row-major order.       *)
(* Indexing with integers and slices, ordinary indexing and aligning the   *)
(* shape refer to existing cells; copies, and indices made of lists of     *)
(* positions, make new buffers.                                            *)
(***************************************************************************)
EXTENDS NdArray

CONSTANTS Shapes, TIdx, VIdx, PIdx, XIdx, Lists, Targets, MaxOps, Ops

VARIABLES shape0, bufs, objs, log
vars == <<shape0, bufs, objs, log>>

\* object: kind, shape, cells <<b, p>> of the values as buffer b and
\* positions p, and of the timeline
Obj(kind, sh, b, p, tb, tp) ==
  [kind |-> kind, shape |-> sh, b |-> b, p |-> p, tb |-> tb, tp |-> tp]
Init ==
  /\ shape0 \in Shapes
  /\ bufs = << [k \in 1..Size(shape0) |-> 10 + k], [k \in 1..shape0[1] |-> k] >>
  /\ objs = << Obj("proc", shape0, 1, [k \in 1..Size(shape0) |-> k], 2, [k \in 1..shape0[1] |-> k]) >>
  /\ log = <<>>

Pick(s, ps) == TLCEval([k \in 1..Len(ps) |-> s[ps[k] + 1]])
Read(o) == [k \in 1..Len(objs[o].p) |-> bufs[objs[o].b][objs[o].p[k]]]
ReadT(o) == IF objs[o].kind = "arr" THEN <<>>
            ELSE [k \in 1..Len(objs[o].tp) |-> bufs[objs[o].tb][objs[o].tp[k]]]

Do(e) == Len(log) < MaxOps /\ e.op \in Ops /\ e.of \in 1..Len(objs) /\ log' = Append(log, e)
         /\ UNCHANGED shape0
Keep == UNCHANGED <<bufs, objs>>
Entry(op, o, idx, ok) == [op |-> op, of |-> o, idx |-> idx, ok |-> ok, list |-> FALSE,
                          at |-> 0, val |-> 0]
IsProc(o) == o \in 1..Len(objs) /\ objs[o].kind = "proc"

\* a selection from an object sharing memory with it; s selects values,
\* ts selects time points
Share(o, kind, s, ts) ==
  LET x == objs[o]
  IN objs' = Append(objs, Obj(kind, s.shape, x.b, Pick(x.p, s.pos), x.tb, Pick(x.tp, ts)))
     /\ UNCHANGED bufs
\* new buffers for values and timeline, as told
CopyOf(o, s, ts, copyx, copyt) ==
  LET x == objs[o]
      xs == Pick(Read(o), s.pos)
      tv == Pick(ReadT(o), ts)
      b1 == IF copyx THEN Append(bufs, xs) ELSE bufs
      b2 == IF copyt THEN Append(b1, tv) ELSE b1
  IN /\ bufs' = b2
     /\ objs' = Append(objs, Obj("proc", s.shape,
          IF copyx THEN Len(b1) ELSE x.b, IF copyx THEN [k \in 1..Len(xs) |-> k] ELSE Pick(x.p, s.pos),
          IF copyt THEN Len(b2) ELSE x.tb, IF copyt THEN [k \in 1..Len(tv) |-> k] ELSE Pick(x.tp, ts)))

Whole(sh) == Select(sh, <<>>)
Iota(n) == [k \in 1..n |-> k - 1]
\* an integer stands for a slice of one
AsSlice(e) == IF e.k = "int" THEN Slice(e.a, IF e.a = -1 THEN None ELSE e.a + 1, 1)
              ELSE IF e.k = "dots" THEN All ELSE e
Axis(n, e) == Positions(AsSlice(e), n)

(***************************************************************************)
(* Transitions                                                             *)
(***************************************************************************)
ByTime(o, e) ==
  /\ IsProc(o)
  /\ LET n == objs[o].shape[1] ts == Axis(n, e) ok == Len(ts) > 0
     IN /\ Do(Entry("t", o, <<e>>, ok))
        /\ IF ok THEN Share(o, "proc", Select(objs[o].shape, <<AsSlice(e)>>), ts) ELSE Keep
ByValue(o, idx) ==
  /\ IsProc(o)
  /\ LET full == <<All>> \o idx \o <<All>> sh == objs[o].shape ok == IndexOk(sh, full)
     IN /\ ok => (LET s == Select(sh, full) IN Len(s.pos) > 0)
        /\ Do(Entry("v", o, idx, ok))
        /\ IF ok THEN Share(o, "proc", Select(sh, full), Iota(sh[1])) ELSE Keep
ByPath(o, e) ==
  /\ IsProc(o)
  /\ LET sh == objs[o].shape n == Last(sh)
     IN /\ Len(Axis(n, e)) > 0
        /\ Do(Entry("p", o, <<e>>, TRUE))
        /\ Share(o, "proc", Select(sh, <<Dots, AsSlice(e)>>), Iota(sh[1]))
\* no index at all
Same(o, mode) ==
  /\ IsProc(o) /\ Do(Entry(mode, o, <<>>, TRUE))
  /\ Share(o, "proc", Whole(objs[o].shape), Iota(objs[o].shape[1]))
\* lists of positions (from 0) along the timeline, paths or the first axis
\* of values
ByList(mode, o, ps) ==
  /\ IsProc(o)
  \* numpy does not always tell positions out of bounds in empty arrays
  /\ Size(objs[o].shape) > 0
  /\ LET sh == objs[o].shape
         ax == CASE mode = "t" -> 1 [] mode = "p" -> Len(sh) [] mode = "v" -> 2
         ok == (mode = "v" => Len(sh) > 2) /\ \A k \in 1..Len(ps) : ps[k] < sh[ax]
         new == [sh EXCEPT ![ax] = Len(ps)]
         s == [shape |-> new, pos |-> [q \in 1..Size(new) |->
                LET ix == Unravel(q - 1, new) IN Ravel([ix EXCEPT ![ax] = ps[@ + 1]], sh)]]
     IN /\ Do([Entry(mode, o, <<>>, ok) EXCEPT !.list = TRUE, !.idx = ps])
        /\ IF ok THEN CopyOf(o, s, IF mode = "t" THEN ps ELSE Iota(sh[1]), TRUE, mode = "t")
           ELSE Keep
Align(o, target) ==
  /\ IsProc(o)
  /\ LET sh == objs[o].shape k == Len(sh) - 2 h == Len(target)
         ok == h >= k \/ \A j \in 2..(k - h + 1) : sh[j] = 1
         new == IF h >= k THEN <<sh[1]>> \o [j \in 1..(h - k) |-> 1] \o Tail(sh)
                ELSE <<sh[1]>> \o SubSeq(sh, k - h + 2, Len(sh))
     IN /\ Do(Entry("shapeas", o, target, ok))
        /\ IF ok THEN Share(o, "proc", [shape |-> new, pos |-> Iota(Size(sh))], Iota(sh[1])) ELSE Keep
Copy(o, op) ==
  /\ IsProc(o) /\ Do(Entry(op, o, <<>>, TRUE))
  /\ CopyOf(o, Whole(objs[o].shape), Iota(objs[o].shape[1]),
            op \in {"pcopy", "xcopy"}, op \in {"pcopy", "tcopy"})
\* ordinary indexing: an array
Plain(o, idx) ==
  /\ o \in 1..Len(objs)
  /\ LET sh == objs[o].shape ok == IndexOk(sh, idx)
     IN /\ ok => (LET s == Select(sh, idx) IN Len(s.pos) > 0 /\ Len(s.shape) > 0)
        /\ Do(Entry("x", o, idx, ok))
        /\ IF ok THEN Share(o, "arr", Select(sh, idx), <<>>) ELSE Keep
Write(o, at) ==
  /\ o \in 1..Len(objs) /\ at <= Len(objs[o].p)
  /\ Do([Entry("write", o, <<>>, TRUE) EXCEPT !.at = at, !.val = 100 + Len(log)])
  /\ bufs' = [bufs EXCEPT ![objs[o].b][objs[o].p[at]] = 100 + Len(log)]
  /\ UNCHANGED objs
WriteTime(o, at) ==
  /\ IsProc(o) /\ at <= Len(objs[o].tp)
  /\ Do([Entry("writet", o, <<>>, TRUE) EXCEPT !.at = at, !.val = 200 + Len(log)])
  /\ bufs' = [bufs EXCEPT ![objs[o].tb][objs[o].tp[at]] = 200 + Len(log)]
  /\ UNCHANGED objs

Next == Len(log) < MaxOps /\ \E o \in 1..Len(objs) :
  \/ \E e \in TIdx : ByTime(o, e)
  \/ \E i \in VIdx : ByValue(o, i)
  \/ \E e \in PIdx : ByPath(o, e)
  \/ \E m \in {"t", "p", "v"} : Same(o, m)
  \/ \E m \in {"t", "p", "v"}, ps \in Lists : ByList(m, o, ps)
  \/ \E t \in Targets : Align(o, t)
  \/ \E c \in {"pcopy", "xcopy", "tcopy"} : Copy(o, c)
  \/ \E i \in XIdx : Plain(o, i)
  \/ \E at \in 1..3 : Write(o, at) \/ WriteTime(o, at)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Shaped == \A o \in 1..Len(objs) :
  /\ Len(objs[o].p) = Size(objs[o].shape)
  /\ objs[o].kind = "proc" => Len(objs[o].tp) = objs[o].shape[1] /\ Len(objs[o].shape) >= 2
Inside == \A o \in 1..Len(objs) : \A k \in 1..Len(objs[o].p) : objs[o].p[k] \in DOMAIN bufs[objs[o].b]
\* values never share memory with timelines
Apart == \A o, q \in 1..Len(objs) : objs[q].kind = "proc" => objs[o].b # objs[q].tb
\* writing through an object is seen by exactly those that share the cell
Seen == [][ \A o \in 1..Len(objs), k \in 1..30 :
   (Len(log') > Len(log) /\ k <= Len(objs[o].p)) =>
     LET e == log'[Len(log')] old == Read(o)[k] new == bufs'[objs[o].b][objs[o].p[k]]
     IN (old # new) <=> (/\ e.op = "write" /\ objs[o].b = objs[e.of].b
                         /\ objs[o].p[k] = objs[e.of].p[e.at]) ]_vars
Inv == Shaped /\ Inside /\ Apart
=============================================================================
