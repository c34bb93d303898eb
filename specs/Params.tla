------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Resolution of the parameters of an SDE, and independence of the objects *)
(* constructed from it.                                                    *)
(*                                                                         *)
(* decl[place][name] says how a place (sde, init, source, more) declares a *)
(* parameter: 0 not at all, -1 without a default, v > 0 with default v.    *)
(* Objects are constructed from given values (a function from names to     *)
(* values, 0 where not given; 9 is None), and run, in any order; every run *)
(* of an object shows the values its places receive.                       *)
(* There may be several classes: a class derived from another one          *)
(* redefines the places in over, and inherits the others.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Names, Places, MaxOps, MaxObjs, MaxNews, Decls, Givens

VARIABLES classes, objs, log

vars == <<classes, objs, log>>

\* the declarations in force in a class
RECURSIVE Eff(_, _)
Eff(cs, c) ==
  LET k == cs[c]
  IN [pl \in Places |-> IF k.parent = 0 \/ pl \in k.over THEN k.d[pl]
                        ELSE Eff(cs, k.parent)[pl]]

Declares(d, n) == {pl \in Places : d[pl][n] # 0}
Known(d) == {n \in Names : Declares(d, n) # {}}

\* the constructor's verdict
Contradictory(d) ==
  \E n \in Names : \E a, b \in Declares(d, n) : d[a][n] # d[b][n]
Unknown(d, g) == \E n \in Names : g[n] # 0 /\ n \notin Known(d)
Missing(d, g) ==
  \E n \in Known(d) : g[n] = 0 /\ \A pl \in Declares(d, n) : d[pl][n] = -1
Acceptable(d, g) == ~Contradictory(d) /\ ~Unknown(d, g) /\ ~Missing(d, g)

\* what a place receives for a name it declares
Value(d, g, pl, n) == IF g[n] # 0 THEN g[n] ELSE d[pl][n]
Received(d, g) ==
  [pl \in Places |-> [n \in Names |->
      IF d[pl][n] = 0 THEN 0 ELSE Value(d, g, pl, n)]]

InitWith(cs) == classes = cs /\ objs = <<>> /\ log = <<>>

New(c, g) ==
  /\ Len(log) < MaxOps
  /\ Len(objs) < MaxNews
  /\ Len(SelectSeq(objs, LAMBDA o : o.ok)) < MaxObjs
  /\ LET d == Eff(classes, c)
         ok == Acceptable(d, g)
     IN /\ objs' = Append(objs, [ok |-> ok, cls |-> c,
                                 recv |-> IF ok THEN Received(d, g) ELSE <<>>])
        /\ log' = Append(log, [op |-> "new", obj |-> Len(objs) + 1, cls |-> c,
                               given |-> g, ok |-> ok, recv |-> <<>>])
  /\ UNCHANGED classes

Run(i) ==
  /\ Len(log) < MaxOps
  /\ objs[i].ok
  /\ log' = Append(log, [op |-> "run", obj |-> i, cls |-> objs[i].cls,
                         given |-> <<>>, ok |-> TRUE, recv |-> objs[i].recv])
  /\ UNCHANGED <<classes, objs>>

Next == (\E c \in 1..Len(classes) : \E g \in Givens : New(c, g))
        \/ (\E i \in 1..Len(objs) : Run(i))

\* every place sees the same value of a name
OneValue ==
  \A i \in 1..Len(objs) : objs[i].ok =>
    \A n \in Names : Cardinality({objs[i].recv[pl][n] :
         pl \in Declares(Eff(classes, objs[i].cls), n)}) <= 1
\* nothing is left without a value
Complete ==
  \A i \in 1..Len(objs) : objs[i].ok =>
    \A n \in Names : \A pl \in Declares(Eff(classes, objs[i].cls), n) :
       objs[i].recv[pl][n] > 0
\* all the runs of an object are equal, whatever happened in between
Repeatable ==
  \A a, b \in 1..Len(log) :
    (log[a].op = "run" /\ log[b].op = "run" /\ log[a].obj = log[b].obj)
      => log[a].recv = log[b].recv
Inv == OneValue /\ Complete /\ Repeatable
=============================================================================
