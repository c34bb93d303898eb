----------------------------- MODULE KfuncModes -----------------------------
(* Which names are objects with managed keywords, in each deployment. *)
EXTENDS TLC, Json, CSV, IOUtils
VARIABLE mode
Init == mode \in {"shortcuts", "all", "none"}
Next == UNCHANGED mode
Spec == Init /\ [][Next]_mode
Full == mode = "all"                       \* sources and processes by full name
Short == mode \in {"all", "shortcuts"}     \* their short names
Func == mode \in {"all", "shortcuts"}      \* analytical results
Inv == Full => Short /\ Func
Export == CSVWrite("%1$s",
  <<ToJson([mode |-> mode, full |-> Full, short |-> Short, func |-> Func])>>, IOEnv.OUT)
=============================================================================
