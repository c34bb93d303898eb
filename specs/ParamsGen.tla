------------------------------ MODULE ParamsGen ------------------------------
EXTENDS Params, Json, CSV, IOUtils, TLC

P4 == {"sde", "init", "source", "more"}
N3 == {"p", "r", "u"}

\* declarations of one name over the four places
Full == [P4 -> {0, -1, 1, 2}]
Few == {[pl \in P4 |-> 0], [pl \in P4 |-> IF pl = "sde" THEN 1 ELSE 0],
        [pl \in P4 |-> IF pl = "init" THEN -1 ELSE 0],
        [pl \in P4 |-> IF pl \in {"source", "more"} THEN 2 ELSE 0],
        [pl \in P4 |-> IF pl \in {"sde", "source"} THEN -1 ELSE 0],
        [pl \in P4 |-> IF pl = "init" THEN 2 ELSE IF pl = "more" THEN 1 ELSE 0],
        [pl \in P4 |-> IF pl \in {"sde", "more"} THEN 9 ELSE 0],
        [pl \in P4 |-> IF pl = "sde" THEN 9 ELSE IF pl = "source" THEN 1 ELSE 0]}
\* u is a name that nobody declares
Join(a, b) == [pl \in P4 |-> [p |-> a[pl], r |-> b[pl], u |-> 0]]
DeclsQuick == {Join(a, b) : a \in Full, b \in {f \in Few : f["init"] <= 0}}
DeclsMore == {Join(a, b) : a \in Full, b \in Few \cup {f \in Full : Cardinality({pl \in P4 : f[pl] # 0}) = 2}}
GivensAll == [N3 -> {0, 5}] \cup {[p |-> 9, r |-> 5, u |-> 0], [p |-> 0, r |-> 9, u |-> 0],
                            [p |-> 9, r |-> 9, u |-> 0], [p |-> 9, r |-> 0, u |-> 9]}
GivensStatic == {g \in GivensAll : TRUE}
DeclsHist == {Join([pl \in P4 |-> IF pl \in {"sde", "source"} THEN 1 ELSE 0],
                   [pl \in P4 |-> IF pl \in {"init"} THEN 2 ELSE 0]),
              Join([pl \in P4 |-> 2], [pl \in P4 |-> IF pl = "sde" THEN -1 ELSE 0])}
GivensHist == {[p |-> 0, r |-> 5, u |-> 0], [p |-> 7, r |-> 6, u |-> 0],
               [p |-> 8, r |-> 0, u |-> 0], [p |-> 5, r |-> 5, u |-> 5],
               [p |-> 9, r |-> 5, u |-> 0]}

\* one class
Alone(ds) == {<<[parent |-> 0, over |-> P4, d |-> d]>> : d \in ds}
OneQuick == Alone(DeclsQuick)
OneMore == Alone(DeclsMore)
OneHist == Alone(DeclsHist)

\* a class, one or two derived from it, redefining some of the places
NoDecl == [pl \in P4 |-> 0]
Base == {Join([pl \in P4 |-> IF pl = "sde" THEN 1 ELSE 0],
              [pl \in P4 |-> IF pl = "source" THEN 2 ELSE 0]),
         Join([pl \in P4 |-> IF pl \in {"init", "source"} THEN 1 ELSE 0],
              [pl \in P4 |-> IF pl = "more" THEN -1 ELSE 0])}
Redo == {Join(NoDecl, NoDecl),
         Join([pl \in P4 |-> 2], NoDecl),
         Join([pl \in P4 |-> 1], [pl \in P4 |-> 1]),
         Join(NoDecl, [pl \in P4 |-> IF pl = "sde" THEN 2 ELSE -1])}
Overs == {{"sde"}, {"init"}, {"source"}, {"more"}, {"sde", "source"}}
Two == {<<[parent |-> 0, over |-> P4, d |-> b], [parent |-> 1, over |-> o, d |-> e]>> :
          b \in Base, o \in Overs, e \in Redo}
Three == {<<[parent |-> 0, over |-> P4, d |-> b], [parent |-> 1, over |-> o, d |-> e],
            [parent |-> p, over |-> o2, d |-> e2]>> :
          b \in Base, o \in {{"sde"}, {"source"}}, e \in Redo, p \in 1..2,
          o2 \in {{"sde"}, {"init"}}, e2 \in Redo}
GivensTwo == {[p |-> 0, r |-> 0, u |-> 0], [p |-> 0, r |-> 5, u |-> 0],
              [p |-> 7, r |-> 0, u |-> 0], [p |-> 9, r |-> 5, u |-> 0]}

Init == \E d \in Decls : InitWith(d)
Spec == Init /\ [][Next]_vars

Export ==
  (Len(log) = MaxOps \/ (Len(log) > 0 /\ ~log[Len(log)].ok
                              /\ (Len(classes) = 1 \/ Len(log) = MaxOps))) =>
    CSVWrite("%1$s", <<ToJson([classes |-> classes, decl |-> [c \in 1..Len(classes) |-> Eff(classes, c)], log |-> log])>>, IOEnv.OUT)
=============================================================================
