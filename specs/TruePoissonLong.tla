-------------------------- MODULE TruePoissonLong --------------------------
(* Long histories, with many events. *)
EXTENDS TruePoissonGen
OutLong == {<<0, 0>>, <<40, 3>>, <<1, 70>>, <<12, 0>>, <<9, 21>>}
SplitLong(n) == {0, n \div 3, n}
Next1(k) == (((Len(log) + 1)*(IF k = 0 THEN 37 ELSE 101) + 29*k) % 193) - 96
NextLong == /\ Len(log) < MaxQueries
            /\ \E k \in 0..1 : LET s == Next1(k) IN Requery(s) \/ Outside(s) \/ Inside(s)
SpecLong == Init /\ [][NextLong]_vars
InvLong == Monotone /\ AtOrigin /\ (Len(log) % 20 = 0 => Consistent /\ Sides)
=============================================================================
