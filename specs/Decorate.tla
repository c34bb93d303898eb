------------------------------ MODULE Decorate ------------------------------
(***************************************************************************)
(* The integrate decorator: from a function to an integrable class.        *)
(*                                                                         *)
(* A function is described by                                              *)
(*   nq   : 0 returns a dict, n > 0 a tuple of n dicts, -1 an empty tuple, *)
(*          -2 something else                                              *)
(*   ids  : the sources it returns coefficients for                        *)
(*   has  : for each equation, those among them it has a coefficient for   *)
(*   call : "zero" can be called with no arguments, "two" needs (t, x),    *)
(*          "more" needs further arguments, "fails" always raises in a     *)
(*          test evaluation                                                *)
(* A declaration is q (-1 if not given), and srcs ("none", or a set).      *)
(* Two functions are decorated one after the other, and the two classes    *)
(* are then integrated in turns. In between, the caller may change the set *)
(* or list of sources given, which is its own: entry 0 of the log.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES fns, classes, phase, log

vars == <<fns, classes, phase, log>>

Given(d) == d.q # -1
GivenS(d) == d.srcs # <<"none">>

Evaluable(f) == f.call = "zero" \/ f.call = "two"

Rejected == [ok |-> FALSE, q |-> -9, srcs |-> <<>>]
\* the sources found in a value of the function
Found(f) == SelectSeq(f.ids, LAMBDA i : \E e \in 1..Len(f.has) : i \in ToSet(f.has[e]))
Class(q, s) == [ok |-> TRUE, q |-> q, srcs |-> s]

Decorate(f, d) ==
  IF Given(d) /\ GivenS(d) THEN Class(d.q, d.srcs)
  ELSE IF ~Evaluable(f) \/ f.nq < 0 THEN Rejected
  ELSE IF Given(d) /\ d.q # f.nq THEN Rejected
  ELSE IF GivenS(d) /\ ToSet(d.srcs) # ToSet(Found(f)) THEN Rejected
  ELSE Class(f.nq, Found(f))

\* integrating a class works when the function is what the class says
Runs(f, c) == c.q = f.nq /\ ToSet(Found(f)) \subseteq ToSet(c.srcs)

Init0(a, b) == fns = <<a, b>> /\ classes = <<>> /\ phase = "decorate" /\ log = <<>>

DecorateNext ==
  /\ phase = "decorate"
  /\ LET k == Len(classes) + 1
     IN /\ classes' = Append(classes, Decorate(fns[k].f, fns[k].d))
        /\ phase' = IF k = 2 THEN "run" ELSE "decorate"
  /\ UNCHANGED <<fns, log>>

Runs0 == SelectSeq(log, LAMBDA e : e.k # 0)
Caller ==
  /\ phase = "run" /\ Len(Runs0) < 3
  /\ \A j \in 1..Len(log) : log[j].k # 0
  /\ \E k \in 1..2 : classes[k].ok /\ GivenS(fns[k].d)
  /\ log' = Append(log, [k |-> 0, ok |-> TRUE])
  /\ UNCHANGED <<fns, classes, phase>>

Run(k) ==
  /\ phase = "run" /\ Len(Runs0) < 3
  /\ classes[k].ok
  /\ log' = Append(log, [k |-> k, ok |-> Runs(fns[k].f, classes[k])])
  /\ UNCHANGED <<fns, classes, phase>>

Finish ==
  /\ phase = "run"
  /\ Len(Runs0) = 3 \/ \A k \in 1..2 : ~classes[k].ok
  /\ phase' = "done"
  /\ UNCHANGED <<fns, classes, log>>

Next == DecorateNext \/ (\E k \in 1..2 : Run(k)) \/ Caller \/ Finish

\* an inferred class always matches its function, so that it can be integrated
InferredRuns ==
  \A k \in 1..Len(classes) :
    (classes[k].ok /\ ~(Given(fns[k].d) /\ GivenS(fns[k].d)))
       => Runs(fns[k].f, classes[k])
\* a class does not depend on what else was decorated
Independent ==
  \A k \in 1..Len(classes) : classes[k] = Decorate(fns[k].f, fns[k].d)
Inv == InferredRuns /\ Independent
=============================================================================
