---------------------------- MODULE TrueWienerGen ----------------------------
EXTENDS TrueWiener, Json, CSV, IOUtils, TLC
TimesA == {-4, -1, 1, 2, 3, 6}
TimesB == {-4, -1, 0, 1, 3, 6}
TimesC == {-6, -4, -1, 1, 2, 3, 6}
Export ==
  Len(queries) = MaxQueries =>
    CSVWrite("%1$s", <<ToJson([law |-> law, origin |-> origin, known |-> known, cov |-> cov])>>, IOEnv.OUT)
=============================================================================
