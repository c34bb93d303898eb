--------------------------- MODULE SourceProtocol ---------------------------
(***************************************************************************)
(* What may be used as a stochasticity source, and how it is used.         *)
(*                                                                         *)
(* A user (an SDE in some layout, or a compound source) needs a source for *)
(* a slot, with a working shape wshape and a number of paths. A candidate  *)
(* is [kind, paths, vshape]:                                               *)
(*   none      - nothing given: the default source is built                *)
(*   class     - a class, instantiated with the parameters of the user     *)
(*   object    - a callable with paths and vshape                          *)
(*   process, memory - a process, or a source with memory                  *)
(*   nocall, nopaths, novshape - defective objects                         *)
(* An accepted candidate is asked for its increments step after step.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES cfg, phase, verdict, at, todo, x, out

vars == <<cfg, phase, verdict, at, todo, x, out>>

Max2(a, b) == IF a > b THEN a ELSE b

\* numpy broadcasting of shape a into shape b
BroadcastsInto(a, b) ==
  /\ Len(a) <= Len(b)
  /\ \A i \in 1..Len(a) :
       LET d == a[Len(a) - i + 1]  e == b[Len(b) - i + 1] IN d = e \/ d = 1

Verdict(c) ==
  CASE c.cand.kind = "none"  -> "default"
    [] c.cand.kind = "class" -> "instance"
    [] c.cand.kind \in {"nocall", "nopaths", "novshape"} -> "rejected"
    [] OTHER -> IF c.cand.paths = c.paths /\ BroadcastsInto(c.cand.vshape, c.wshape)
                THEN "asis" ELSE "rejected"

\* value of the source at time s (process, memory), for component/path number k
Z(s, k) == (s*(k + 1)) + IF s > 2 THEN 3*(s - 2) ELSE 0
\* increments of the remaining sources
Inc(c, s, ds, k) ==
  CASE c.cand.kind \in {"process", "memory"} -> Z(s + ds, k) - Z(s, k)
    [] OTHER -> s + 10*ds + k

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s)*Prod(Tail(s))
CandCells(c) == Prod(c.cand.vshape)*c.cand.paths

Init0(c) ==
  /\ cfg = c /\ phase = "new" /\ verdict = "-" /\ at = 0 /\ todo = c.tl
  /\ x = <<>> /\ out = <<>>

Construct ==
  /\ phase = "new"
  /\ verdict' = Verdict(cfg)
  /\ phase' = IF verdict' = "asis" /\ cfg.slot # "dn_of_dj" THEN "run" ELSE "done"
  /\ at' = Head(cfg.tl) /\ todo' = Tail(cfg.tl)
  /\ x' = [k \in 1..CandCells(cfg) |-> 0]
  /\ out' = <<x'>>
  /\ UNCHANGED cfg

\* the user adds up the increments
Step ==
  /\ phase = "run"
  /\ IF todo = <<>> THEN phase' = "done" /\ UNCHANGED <<at, todo, x, out>>
     ELSE /\ x' = [k \in 1..CandCells(cfg) |-> x[k] + Inc(cfg, at, Head(todo) - at, k)]
          /\ out' = Append(out, x')
          /\ at' = Head(todo) /\ todo' = Tail(todo)
          /\ UNCHANGED phase
  /\ UNCHANGED <<cfg, verdict>>

Next == Construct \/ Step

\* increments taken from a process or a source with memory add up to the
\* change of its value
Telescoping ==
  (phase = "done" /\ verdict = "asis" /\ cfg.cand.kind \in {"process", "memory"}
     /\ cfg.slot # "dn_of_dj") =>
    \A i \in 1..Len(cfg.tl) : \A k \in 1..CandCells(cfg) :
       out[i][k] = Z(cfg.tl[i], k) - Z(cfg.tl[1], k)
\* whatever is accepted fits
Fits == verdict = "asis" =>
          cfg.cand.paths = cfg.paths /\ Len(cfg.cand.vshape) <= Len(cfg.wshape)
Inv == Telescoping /\ Fits
=============================================================================
