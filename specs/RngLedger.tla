----------------------------- MODULE RngLedger -----------------------------
(***************************************************************************)
(* Which random number generators are consulted.                           *)
(*                                                                         *)
(* Sources and processes are bound on creation to the generator given, or  *)
(* to the default installed at that moment; a source object given to a     *)
(* process brings its own generator along.  Using an object advances the   *)
(* generators it is bound to, and nothing else.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Args, SourceArgs, MaxOps, MaxObjs

VARIABLES default, objs, ledger, log
vars == <<default, objs, ledger, log>>

\* d, e: defaults of the package; a, b: given explicitly
\* np: the global numpy generator, py: that of Python; never to be touched
Gens == {"d", "e", "a", "b", "np", "py"}
Resolve(arg) == IF arg = "none" THEN default ELSE arg

Init == /\ default = "d" /\ objs = <<>> /\ ledger = [g \in Gens |-> 0] /\ log = <<>>

Log(e) == log' = Append(log, e)
Room == Len(log) < MaxOps

\* own: draws with its own generator only
CreateOwn(arg) ==
  /\ Room /\ Len(objs) < MaxObjs
  /\ objs' = Append(objs, {Resolve(arg)})
  /\ Log([op |-> "create", kind |-> "own", arg |-> arg, src |-> "-", gens |-> {Resolve(arg)}])
  /\ UNCHANGED <<default, ledger>>
\* given: all randomness from a source object bound to a generator of its own
\* mixed: part of the randomness from such source, part from a default one
CreateGiven(kind, arg, src) ==
  LET g == IF kind = "given" THEN {Resolve(src)} ELSE {Resolve(src), Resolve(arg)}
  IN /\ Room /\ Len(objs) < MaxObjs
     /\ objs' = Append(objs, g)
     /\ Log([op |-> "create", kind |-> kind, arg |-> arg, src |-> src, gens |-> g])
     /\ UNCHANGED <<default, ledger>>
\* an integer or array seed is no generator
Seed ==
  /\ Room
  /\ Log([op |-> "seed", gens |-> {}])
  /\ UNCHANGED <<default, objs, ledger>>
Install(g) ==
  /\ Room /\ g # default
  /\ default' = g
  /\ Log([op |-> "install", g |-> g, gens |-> {}])
  /\ UNCHANGED <<objs, ledger>>
Use(k) ==
  /\ Room /\ k \in 1..Len(objs)
  /\ ledger' = [g \in Gens |-> ledger[g] + (IF g \in objs[k] THEN 1 ELSE 0)]
  /\ Log([op |-> "use", k |-> k, gens |-> objs[k]])
  /\ UNCHANGED <<default, objs>>

Next == \/ \E arg \in Args : CreateOwn(arg)
        \/ \E kind \in {"given", "mixed"}, arg \in Args, src \in SourceArgs :
              arg # src /\ CreateGiven(kind, arg, src)
        \/ Seed \/ Install("d") \/ Install("e")
        \/ \E k \in 1..MaxObjs : Use(k)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Untouched == ledger["np"] = 0 /\ ledger["py"] = 0
Accounted == \A g \in Gens :
  ledger[g] = Cardinality({k \in 1..Len(log) : log[k].op = "use" /\ g \in log[k].gens})
\* a default installed later is not seen by existing objects
Bound == [][\A k \in 1..Len(objs) : objs'[k] = objs[k]]_vars

\* Generators that share an object have to be replayed together.  The outcome
\* for such a group depends on the operations on it alone.
RECURSIVE Close(_)
Close(S) ==
  LET T == S \cup UNION {objs[k] : k \in {k \in 1..Len(objs) : objs[k] \cap S # {}}}
  IN IF T = S THEN S ELSE Close(T)
Groups == {Close({g}) : g \in {g \in Gens : \E k \in 1..Len(objs) : g \in objs[k]}}
\* operations concerning a group: all uses of its objects, and whatever
\* decides which generator they are bound to
Sub(G) == {k \in 1..Len(log) : log[k].op = "install" \/ log[k].gens \cap G # {}}
Projected == \A G \in Groups : \A k \in 1..Len(log) :
   log[k].op = "use" /\ k \notin Sub(G) => log[k].gens \cap G = {}
Inv == Untouched /\ Accounted /\ Projected
=============================================================================
