------------------------ MODULE AnalyticDefaultsGen -------------------------
EXTENDS AnalyticDefaults, Sequences, Json, CSV, IOUtils, TLC
All == {"wiener", "lognorm", "oruh", "hw2f", "cir", "heston", "mjd", "kou", "bs"}
\* one value for each parameter, never the default
Some(f, p) ==
  LET v == CASE p = "mu" -> <<1, 4>> [] p = "rho" -> <<-1, 2>>
             [] p = "pa" -> <<1, 4>> [] p \in {"r", "q"} -> <<1, 8>>
             [] p = "a" -> IF f = "mjd" THEN <<-1, 4>> ELSE <<1, 4>>
             [] p = "b" -> IF f = "mjd" THEN <<1, 2>> ELSE <<1, 3>>
             [] p = "k" -> R(2) [] p = "x0" -> <<3, 2>>
             [] OTHER -> <<3, 4>>
  IN {IF f = "hw2f" /\ p # "rho" THEN <<v, RAdd(v, <<1, 2>>)>> ELSE <<v>>}
Export == CSVWrite("%1$s", <<ToJson([fam |-> fam, given |-> given, means |-> Means])>>, IOEnv.OUT)
=============================================================================
