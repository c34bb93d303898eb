----------------------------- MODULE ProcCreate -----------------------------
(* Creation of a process from a timeline and full (x), deterministic (v)    *)
(* or constant (c) contents.                                                *)
EXTENDS NdArray
CONSTANTS TShapes, XShapes, VShapes, CShapes
VARIABLES call, out
vars == <<call, out>>

No == [given |-> FALSE, shape |-> <<>>]
Yes(sh) == [given |-> TRUE, shape |-> sh]
Given(c) == {k \in {"x", "v", "c"} : c[k].given}

\* the data of contents shaped sh are 1, 2, ...
Outcome(c) ==
  LET N == Size(c.t)
      timeline == Len(c.t) <= 1 /\ N > 0
      none == [ok |-> FALSE, shape |-> <<>>, data |-> <<>>]
  IN IF ~timeline \/ Cardinality(Given(c)) # 1 THEN none
     ELSE CASE c.x.given ->
               IF c.x.shape[1] # N THEN none
               ELSE [ok |-> TRUE, shape |-> c.x.shape, data |-> [p \in 1..Size(c.x.shape) |-> p]]
            [] c.v.given ->
               IF c.v.shape[1] # N THEN none
               ELSE [ok |-> TRUE, shape |-> Append(c.v.shape, 1),
                     data |-> [p \in 1..Size(c.v.shape) |-> p]]
            [] c.c.given ->
               LET m == Size(c.c.shape)
               IN [ok |-> TRUE, shape |-> <<N>> \o c.c.shape \o <<1>>,
                   data |-> [p \in 1..(N*m) |-> ((p - 1) % m) + 1]]

Calls == {[t |-> t, x |-> x, v |-> v, c |-> c] :
            t \in TShapes, x \in {No} \cup {Yes(s) : s \in XShapes},
            v \in {No} \cup {Yes(s) : s \in VShapes}, c \in {No} \cup {Yes(s) : s \in CShapes}}
Init == call \in Calls /\ out = [ok |-> FALSE, shape |-> <<>>, data |-> <<>>, done |-> FALSE]
Create == ~out.done /\ UNCHANGED call
          /\ out' = LET o == Outcome(call)
                    IN [ok |-> o.ok, shape |-> o.shape, data |-> o.data, done |-> TRUE]
Spec == Init /\ [][Create]_vars
Inv == out.ok => /\ out.shape[1] = Size(call.t) /\ Len(out.shape) >= 2
                 /\ Len(out.data) = Size(out.shape)
                 /\ Cardinality(Given(call)) = 1
=============================================================================
