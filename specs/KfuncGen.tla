------------------------------ MODULE KfuncGen ------------------------------
EXTENDS Kfunc, Json, CSV, IOUtils
ParA == {Empty, [a |-> 3], [b |-> 4], [a |-> 4, b |-> 3]}
ParB == {Empty, [a |-> 3], [b |-> 4], [a |-> 4, b |-> 3], [a |-> 4], [z |-> 1], [a |-> 3, z |-> 1]}
VarA == {Empty, [x |-> 7], [x |-> 8, y |-> 9]}
VarB == {Empty, [x |-> 7], [x |-> 8, y |-> 9], [y |-> 9]}
Export == Len(log) = MaxOps =>
  CSVWrite("%1$s", <<ToJson([kind |-> kind, log |-> log, objs |-> objs])>>, IOEnv.OUT)
=============================================================================
