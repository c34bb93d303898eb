-------------------------- MODULE AnalyticDefaults --------------------------
(***************************************************************************)
(* Calls of the analytical results with some of the parameters left out.   *)
(* A call is a partial assignment of the parameters of a family; what it   *)
(* means is the total one completed with the documented defaults.  Calls   *)
(* grow one parameter at a time.                                           *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

CONSTANTS Families, Values(_, _)

VARIABLES fam, given
vars == <<fam, given>>

\* documented defaults, as sequences of rationals: one for each factor of
\* two-factor processes
Default(f) ==
  LET one(q) == <<q>>
      z == one(R(0))  u == one(R(1))  h == one(<<1, 2>>)
      zz == <<R(0), R(0)>>  uu == <<R(1), R(1)>>
  IN CASE f = "wiener" -> [x0 |-> z, mu |-> z, sigma |-> u]
       [] f = "lognorm" -> [x0 |-> u, mu |-> z, sigma |-> u]
       [] f = "oruh" -> [x0 |-> z, theta |-> z, k |-> u, sigma |-> u]
       [] f = "hw2f" -> [x0 |-> zz, theta |-> zz, k |-> uu, sigma |-> uu, rho |-> z]
       [] f = "cir" -> [x0 |-> u, theta |-> u, k |-> u, xi |-> u]
       [] f = "heston" -> [x0 |-> u, mu |-> z, sigma |-> u, y0 |-> u, theta |-> u,
                           k |-> u, xi |-> u, rho |-> z]
       [] f = "mjd" -> [x0 |-> u, mu |-> z, sigma |-> u, lam |-> u, a |-> z, b |-> u]
       [] f = "kou" -> [x0 |-> u, mu |-> z, sigma |-> u, lam |-> u, a |-> h, b |-> h, pa |-> h]
       [] f = "bs" -> [x0 |-> u, r |-> z, q |-> z, sigma |-> u]

Names(f) == DOMAIN Default(f)
Means == [p \in Names(fam) |-> IF p \in DOMAIN given THEN given[p] ELSE Default(fam)[p]]

Init == fam \in Families /\ given = [p \in {} |-> 0]
Give(p) ==
  /\ p \in Names(fam) \ DOMAIN given
  /\ \E v \in Values(fam, p) :
       given' = [x \in DOMAIN given \cup {p} |-> IF x = p THEN v ELSE given[x]]
  /\ UNCHANGED fam
Next == \E p \in Names(fam) : Give(p)
Spec == Init /\ [][Next]_vars

\* what is given is what counts, the rest is as documented
Sound == \A p \in Names(fam) :
           IF p \in DOMAIN given THEN Means[p] = given[p] ELSE Means[p] = Default(fam)[p]
=============================================================================
