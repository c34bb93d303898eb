--------------------------- MODULE RngLedgerGen ---------------------------
EXTENDS RngLedger, Json, CSV, IOUtils, TLC
Export ==
  (Len(log) = MaxOps /\ log[MaxOps].op = "use") =>
    CSVWrite("%1$s", <<ToJson([log |-> log,
        groups |-> SetToSeq({[gens |-> G, ops |-> Sub(G)] : G \in Groups})])>>, IOEnv.OUT)
=============================================================================
