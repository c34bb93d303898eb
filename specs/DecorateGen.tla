---------------------------- MODULE DecorateGen ----------------------------
EXTENDS Decorate, Json, CSV, IOUtils, TLC

CONSTANTS Big

IdSets == {<<"dt">>, <<"dt", "dw">>, <<"dn", "dw">>, <<"dj", "dt", "dw">>}
\* which equation has which coefficients
Wheres == {"alternate", "last", "first", "split", "all"}
Here(w, nq, n, j, e) ==  \* the j-th of n sources, in equation e of nq
  CASE w = "all" \/ nq < 2 -> TRUE
    [] w = "alternate" -> n = 1 \/ e = nq \/ (j % 2) # (e % 2)
    [] w = "last" -> j = 1 \/ e = nq
    [] w = "first" -> j = n \/ e = 1
    [] w = "split" -> (j % nq) = (e % nq)
Fn(nq, ids, call, w) ==
  [nq |-> nq, ids |-> ids, call |-> call,
   has |-> [e \in 1..(CASE nq \in {0, -2} -> 1 [] nq = -1 -> 0 [] OTHER -> nq) |->
     SelectSeq(ids, LAMBDA i : Here(w, nq, Len(ids), CHOOSE j \in 1..Len(ids) : ids[j] = i, e))]]

\* what can be called with (t, x) only has at most one equation
Fns == {Fn(nq, ids, call, w) : nq \in {-2, -1, 0, 1, 2, 3, 5}, ids \in IdSets,
        call \in {"zero", "two", "more", "fails"}, w \in Wheres}
Sane(f) == (f.call = "two" => f.nq <= 1) /\ (f.call = "more" => f.nq >= 2)

Srcs(f) == {<<"none">>, f.ids, <<"dt", "dw">>, <<"dj", "dn", "dt", "dw">>}
Ds(f) == [q : {-1, 0, 1, 2, 3} \cup (IF f.nq > 3 THEN {f.nq} ELSE {}), srcs : Srcs(f), log : BOOLEAN, addaxis : BOOLEAN]
DsSmall(f) == {d \in Ds(f) : d.log = (d.q % 2 = 0) /\ d.addaxis = (Len(d.srcs) % 2 = 0)}

Second == {[f |-> Fn(0, <<"dt", "dw">>, "zero", "all"), d |-> [q |-> -1, srcs |-> <<"none">>, log |-> FALSE, addaxis |-> FALSE]],
           [f |-> Fn(2, <<"dt">>, "zero", "all"), d |-> [q |-> 2, srcs |-> <<"dt">>, log |-> TRUE, addaxis |-> TRUE]]}

Init == \E f \in Fns : \E d \in (IF Big THEN Ds(f) ELSE DsSmall(f)) : \E b \in Second :
           Sane(f) /\ Init0([f |-> f, d |-> d], b)
Spec == Init /\ [][Next]_vars

Export ==
  phase = "done" =>
    CSVWrite("%1$s", <<ToJson([fns |-> fns, classes |-> classes, log |-> log])>>, IOEnv.OUT)
=============================================================================
