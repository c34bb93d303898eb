--------------------------- MODULE TruePoissonGen ---------------------------
EXTENDS TruePoisson, Json, CSV, IOUtils, TLC
TimesA == {-4, -1, 1, 2, 6}
TimesB == {-6, -4, -1, 0, 1, 2, 3, 6}
OutA == {<<0, 0>>, <<1, 0>>, <<2, 3>>}
OutB == {<<0, 0>>, <<1, 0>>, <<0, 2>>, <<2, 1>>, <<3, 4>>}
Export ==
  Len(log) = MaxQueries =>
    CSVWrite("%1$s", <<ToJson([origin |-> Origin, z0 |-> Z0, log |-> log])>>, IOEnv.OUT)
=============================================================================
