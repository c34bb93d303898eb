------------------------------- MODULE Defaults -------------------------------
(***************************************************************************)
(* Calls with parameters left out, across all parts of the library.        *)
(*                                                                         *)
(* For each function or class (a "family") the documentation states the    *)
(* value of each parameter that is left out. A call is a partial           *)
(* assignment; it means the total one. A user edits a call by giving a     *)
(* further parameter or dropping one, and then makes a second call of the  *)
(* same family with nothing given, which means the documented values       *)
(* whatever the first one was (nothing given persists).                    *)
(*                                                                         *)
(* Values are terms, strings that stand for a value; Doc(f) is the         *)
(* documentation, Alt(f, p) the sequence of further values tried.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Families, Doc(_), Alt(_, _), Near

VARIABLES fam, given, second
vars == <<fam, given, second>>

Names(f) == DOMAIN Doc(f)
Empty == [p \in {} |-> ""]
Meaning(f, g) == [p \in Names(f) |-> IF p \in DOMAIN g THEN g[p] ELSE Doc(f)[p]]

\* correlations only apply to values with a last axis; one of corr, rho is used
Allowed(f, g) ==
  LET D == DOMAIN g IN
  /\ ("rho" \in D /\ "factors" \in Names(f)) => "factors" \in D
  /\ (D \cap {"corr", "rho"} # {}) => "vshape" \in D
  /\ ~ {"corr", "rho"} \subseteq D
  \* what the generator works upon is broadcast into its output
  /\ "wshape" \in D => "xshape" \in D

\* everything that may be given together
Full(f) == LET D == Names(f) \ {"rho"}
           IN [p \in {x \in D : Alt(f, x) # <<>>} |-> Alt(f, p)[1]]

Init == /\ fam \in Families
        /\ given \in {Empty, Full(fam)}
        /\ second = FALSE
Give(p) ==
  /\ ~second /\ Cardinality(DOMAIN given) < Near
  /\ p \in Names(fam) \ DOMAIN given
  /\ \E i \in 1..Len(Alt(fam, p)) :
       given' = [x \in DOMAIN given \cup {p} |-> IF x = p THEN Alt(fam, p)[i] ELSE given[x]]
  /\ Allowed(fam, given')
  /\ UNCHANGED <<fam, second>>
Drop(p) ==
  /\ ~second /\ Cardinality(DOMAIN given) > Cardinality(DOMAIN Full(fam)) - Near
  /\ p \in DOMAIN given
  /\ given' = [x \in DOMAIN given \ {p} |-> given[x]]
  /\ Allowed(fam, given')
  /\ UNCHANGED <<fam, second>>
Again == ~second /\ second' = TRUE /\ UNCHANGED <<fam, given>>
Next == Again \/ \E p \in Names(fam) : Give(p) \/ Drop(p)
Spec == Init /\ [][Next]_vars

Sound ==
  LET m == Meaning(fam, given) IN
  /\ \A p \in Names(fam) : IF p \in DOMAIN given THEN m[p] = given[p] ELSE m[p] = Doc(fam)[p]
  /\ Meaning(fam, Empty) = Doc(fam)
  \* giving what is documented is no change
  /\ \A p \in Names(fam) \ DOMAIN given :
       Meaning(fam, [x \in DOMAIN given \cup {p} |->
                       IF x = p THEN Doc(fam)[p] ELSE given[x]]) = m
=============================================================================
