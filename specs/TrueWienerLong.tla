--------------------------- MODULE TrueWienerLong ---------------------------
(* Long histories: tens of known times, asked for in a scattered order. *)
EXTENDS TrueWienerGen
\* the k-th choice of the next time: each tick of -45..45 comes up once
\* (37 and 11 are coprime to 91)
Next1(k) == (((Len(queries) + 1)*(IF k % 2 = 0 THEN 37 ELSE 11) + 17*k) % 91) - 45
NextLong == \E k \in 0..5 : Query(Next1(k))
SpecLong == Init /\ [][NextLong]_vars
ExportLong == (Len(queries) = MaxQueries => Inv) /\ Export
=============================================================================
