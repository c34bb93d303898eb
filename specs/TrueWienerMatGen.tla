--------------------------- MODULE TrueWienerMatGen ---------------------------
EXTENDS TrueWienerMat, Json, CSV, IOUtils
TimesA == {-3, -1, 1, 2, 3}
TimesB == {-2, -1, 1, 2, 3}
Export ==
  Len(queries) = MaxQueries =>
    CSVWrite("%1$s", <<ToJson([law |-> law, origin |-> origin, known |-> known, cov |-> cov])>>, IOEnv.OUT)
=============================================================================
