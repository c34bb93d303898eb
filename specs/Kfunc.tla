------------------------------- MODULE Kfunc -------------------------------
(***************************************************************************)
(* Objects with managed keywords: a tree of objects, each storing some     *)
(* parameters.                                                             *)
(*                                                                         *)
(* Calling a class or an object with parameters only makes a new object    *)
(* with merged parameters; with some variables, it evaluates.  Evaluation  *)
(* of an object may change the state of that object only, as recorded in   *)
(* last (the variables of its last evaluation), and evaluation with        *)
(* parameters takes place on an object that is not kept.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Kinds, ParamSets, VarSets, MaxOps

VARIABLES kind, objs, log
vars == <<kind, objs, log>>

\* a kind: is it a class (or a function), parameters and variables with no
\* default, known variables, defaults
KindOf(k) ==
  LET Two == {"x", "y"}
  IN CASE k = "class"    -> [cls |-> TRUE,  mand |-> {}, need |-> {"x"}, known |-> Two]
       [] k = "mand"     -> [cls |-> TRUE,  mand |-> {"a"}, need |-> {"x"}, known |-> Two]
       [] k = "func"     -> [cls |-> FALSE, mand |-> {}, need |-> {"x"}, known |-> Two]
       [] k = "funcmand" -> [cls |-> FALSE, mand |-> {"a"}, need |-> Two, known |-> Two]
       [] k = "free"     -> [cls |-> TRUE,  mand |-> {}, need |-> {}, known |-> Two]
       [] k = "two"      -> [cls |-> TRUE,  mand |-> {}, need |-> Two, known |-> Two]
       [] k = "one"      -> [cls |-> TRUE,  mand |-> {}, need |-> {"x"}, known |-> {"x"}]
Params == {"a", "b"}
Default == [a |-> 1, b |-> 2, x |-> 5, y |-> 10]
Empty == [k \in {} |-> 0]
Merge(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Full(f, names) == [k \in names |-> IF k \in DOMAIN f THEN f[k] ELSE Default[k]]

K == KindOf(kind)
Init == kind \in Kinds /\ objs = <<>> /\ log = <<>>

\* classes refuse invalid parameters when created, functions when evaluated
BadParams(par) == ~(K.mand \subseteq DOMAIN par) \/ ~(DOMAIN par \subseteq Params)
CreateFails(par) == K.cls /\ BadParams(par)
EvalFails(par, v) == BadParams(par) \/ ~(K.need \subseteq DOMAIN v)

None == Empty
Do(e) == log' = Append(log, e) /\ UNCHANGED kind
Entry(of, par, v, what, val) == [of |-> of, par |-> par, vars |-> v, what |-> what, val |-> val]
Value(par, v) == Merge(Full(par, Params), Full(v, K.known))
Error(of, par, v) == Do(Entry(of, par, v, "error", None)) /\ UNCHANGED objs

\* call of the class (of = 0) or of an object
Call(of, par, v) ==
  LET stored == IF of = 0 THEN Empty ELSE objs[of].par
      all == Merge(stored, par)
      self == of > 0 /\ par = Empty      \* evaluation of the object itself
      eval == self \/ v # Empty
  IN /\ DOMAIN v \subseteq K.known
     /\ ("z" \in DOMAIN par => K.cls)
     /\ IF ~self /\ CreateFails(all) THEN Error(of, par, v)
        ELSE IF eval /\ EvalFails(all, v) THEN Error(of, par, v)
        ELSE IF eval
             THEN /\ Do(Entry(of, par, v, "value", Value(all, v)))
                  /\ objs' = IF self THEN [objs EXCEPT ![of].last = Full(v, K.known)] ELSE objs
             ELSE /\ Do(Entry(of, par, v, "object", None))
                  /\ objs' = Append(objs, [par |-> all, last |-> None, parent |-> of])

Next == Len(log) < MaxOps /\ \E of \in 0..Len(objs), par \in ParamSets, v \in VarSets : Call(of, par, v)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
\* later parameters override earlier ones along the chain of derivations
Inherit == \A i \in 1..Len(objs) : objs[i].parent > 0 =>
  DOMAIN objs[objs[i].parent].par \subseteq DOMAIN objs[i].par
\* parameters of objects never change, and only evaluating an object with
\* no parameters changes its state
Kept == [][ \A i \in 1..Len(objs) :
   /\ objs'[i].par = objs[i].par
   /\ (objs'[i].last # objs[i].last =>
         LET e == log'[Len(log')] IN e.of = i /\ e.par = Empty /\ e.what = "value") ]_vars
NoLeak == \A i \in 1..Len(log) : log[i].what # "object" => log[i].par = Empty \/ log[i].vars # Empty \/ log[i].what = "error"
Inv == Inherit /\ NoLeak
=============================================================================
