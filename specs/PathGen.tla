------------------------------ MODULE PathGen ------------------------------
(***************************************************************************)
(* Step-by-step path generation along a timeline (paths_generator).        *)
(*                                                                         *)
(* Times are integer ticks.  A configuration is a record                   *)
(*   tl    : sequence of output times, strictly increasing                 *)
(*   i0    : 1-based index in tl of the start time                         *)
(*   steps : [kind |-> "none" | "count" | "times", n, times]               *)
(*   K     : depth of the working window (>= 2)                            *)
(* One action per callback of the generator: Begin, StoreInitial, Advance  *)
(* (with the choice of the sub-step made by the callback), Store, End,     *)
(* Exit.  log is the history of the callbacks, with what each of them must *)
(* be able to see.                                                         *)
(***************************************************************************)
EXTENDS Timeline

CONSTANTS MaxAdapt,     \* maximum number of shortened steps in a behaviour
          MaxBad        \* maximum number of illegal proposals (0 or 1)

VARIABLES cfg, phase, dirs, dir, todo, win, outs, pos, k, adapts, out, log

vars == <<cfg, phase, dirs, dir, todo, win, outs, pos, k, adapts, out, log>>

InitCfg(c) ==
  /\ cfg = c /\ phase = "idle" /\ dirs = Directions(c) /\ dir = "-"
  /\ todo = <<>> /\ win = <<>> /\ outs = <<>> /\ pos = 1 /\ k = 1
  /\ adapts = 0 /\ out = [i \in 1..Len(c.tl) |-> "-"] /\ log = <<>>

Begin ==
  /\ phase = "idle" /\ dirs # <<>>
  /\ LET d == Head(dirs)  R == Route(cfg, d)  W == SubSeq(R, 1, cfg.K - 1)
     IN /\ dir' = d /\ dirs' = Tail(dirs)
        /\ win' = W /\ todo' = SubSeq(R, cfg.K, Len(R))
        /\ outs' = Outputs(cfg, d)
        /\ log' = Append(log, [e |-> "begin", d |-> d, win |-> W,
                               route |-> R, outs |-> Outputs(cfg, d)])
  /\ pos' = 1 /\ k' = 1 /\ phase' = "init"
  /\ UNCHANGED <<cfg, adapts, out>>

\* output times among the K-1 initial points are stored
StoreInitial ==
  /\ phase = "init" /\ k <= cfg.K - 1
  /\ IF pos <= Len(outs) /\ win[k] = outs[pos]
     THEN /\ pos' = pos + 1
          /\ out' = [out EXCEPT ![Idx(cfg, win[k])] = dir]
          /\ log' = Append(log, [e |-> "store", t |-> win[k], d |-> dir])
     ELSE UNCHANGED <<pos, out, log>>
  /\ k' = k + 1
  /\ phase' = IF k = cfg.K - 1 THEN "run" ELSE "init"
  /\ UNCHANGED <<cfg, dirs, dir, todo, win, outs, adapts>>

LastT == win[Len(win)]
Target == Head(todo)
Between(a, b) == IF a < b THEN (a+1)..(b-1) ELSE (b+1)..(a-1)
Fwd(a, n) == IF dir = "f" THEN a + n ELSE a - n   \* n ticks further on

AdvanceTo(c) ==
  /\ phase = "run" /\ pos <= Len(outs)
  /\ log' = Append(log, [e |-> "next", win |-> win, target |-> Target, to |-> c,
                         nextout |-> outs[pos]])
  /\ win' = Append(Tail(win), c)
  /\ todo' = IF c = Target THEN Tail(todo) ELSE todo
  /\ phase' = IF c = outs[pos] THEN "store" ELSE "run"
  /\ UNCHANGED <<cfg, dirs, dir, outs, pos, k, out>>

Advance == phase = "run" /\ pos <= Len(outs) /\ AdvanceTo(Target)
           /\ UNCHANGED adapts

\* the callback shortens the step (to a quarter or half of it)
SubStep ==
  /\ phase = "run" /\ pos <= Len(outs) /\ adapts < MaxAdapt
  /\ \E c \in Between(LastT, Target) :
       /\ \/ 2*(c - LastT) = Target - LastT
          \/ 4*(c - LastT) = Target - LastT
       /\ AdvanceTo(c)
  /\ adapts' = adapts + 1

\* the callback makes an illegal proposal: no progress, backwards, or beyond
Illegal ==
  /\ phase = "run" /\ pos <= Len(outs) /\ MaxBad > 0
  /\ \E c \in {LastT, Fwd(LastT, -1), Fwd(Target, 1)} :
       log' = Append(log, [e |-> "bad", win |-> win, target |-> Target, to |-> c,
                           nextout |-> outs[pos]])
  /\ phase' = "error"
  /\ UNCHANGED <<cfg, dirs, dir, todo, win, outs, pos, k, adapts, out>>

Store ==
  /\ phase = "store"
  /\ out' = [out EXCEPT ![Idx(cfg, LastT)] = dir]
  /\ log' = Append(log, [e |-> "store", t |-> LastT, d |-> dir])
  /\ pos' = pos + 1 /\ phase' = "run"
  /\ UNCHANGED <<cfg, dirs, dir, todo, win, outs, k, adapts>>

End ==
  /\ phase = "run" /\ pos > Len(outs)
  /\ log' = Append(log, [e |-> "end", d |-> dir])
  /\ phase' = "idle"
  /\ UNCHANGED <<cfg, dirs, dir, todo, win, outs, pos, k, adapts, out>>

Exit ==
  /\ phase = "idle" /\ dirs = <<>>
  /\ log' = Append(log, [e |-> "exit"])
  /\ phase' = "done"
  /\ UNCHANGED <<cfg, dirs, dir, todo, win, outs, pos, k, adapts, out>>

Next == Begin \/ StoreInitial \/ Advance \/ SubStep \/ Illegal \/ Store \/ End \/ Exit

(***************************************************************************)
(* Properties of the design                                                *)
(***************************************************************************)
DirLog(d) ==     \* times reached in direction d, in order
  LET b == SelectSeq(log, LAMBDA r : r.e = "begin" /\ r.d = d)
      RECURSIVE nexts(_, _)
      nexts(i, cur) ==
        IF i > Len(log) THEN <<>>
        ELSE LET c == IF log[i].e = "begin" THEN log[i].d ELSE cur
             IN (IF log[i].e = "next" /\ c = d THEN <<log[i].to>> ELSE <<>>)
                \o nexts(i + 1, c)
  IN (IF b = <<>> THEN <<>> ELSE b[1].win) \o nexts(1, "-")

StrictlyMonotone(s, d) ==
  \A i \in 1..(Len(s) - 1) : IF d = "f" THEN s[i] < s[i+1] ELSE s[i] > s[i+1]

Monotone == \A d \in {"b", "f"} : StrictlyMonotone(DirLog(d), d)

\* at completion, each required time has been reached, exactly once per side
AllVisited ==
  phase = "done" =>
    \A d \in {"b", "f"} : d \in ToSet(Directions(cfg)) =>
       /\ ToSet(Route(cfg, d)) \subseteq ToSet(DirLog(d))
       /\ (MaxAdapt = 0 => DirLog(d) = Route(cfg, d))

NothingBeyond == \A d \in {"b", "f"} :
    \A t \in ToSet(DirLog(d)) : Lo(cfg) <= t /\ t <= Hi(cfg)

Stores(t) == Len(SelectSeq(log, LAMBDA r : r.e = "store" /\ r.t = t))

StoredOnce ==
  phase = "done" =>
    \A i \in 1..Len(cfg.tl) :
       Stores(cfg.tl[i]) =
          (IF cfg.tl[i] = Start(cfg) THEN Len(Directions(cfg)) ELSE 1)

OnlyOutputsStored ==
  \A i \in 1..Len(log) : log[i].e = "store" => log[i].t \in ToSet(cfg.tl)

AllStored == phase = "done" => \A i \in 1..Len(cfg.tl) : out[i] # "-"

Window == phase \in {"init", "run", "store"} => Len(win) = cfg.K - 1

Inv == Monotone /\ AllVisited /\ NothingBeyond /\ StoredOnce /\ OnlyOutputsStored
       /\ AllStored /\ Window
=============================================================================
