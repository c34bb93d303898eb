--------------------------- MODULE ProcCreateGen ---------------------------
EXTENDS ProcCreate, Json, CSV, IOUtils, TLC
TS == {<<>>, <<0>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 1>>, <<1, 2>>}
XS == {<<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 3>>, <<3, 2>>, <<2, 2, 2>>, <<1, 2, 2>>, <<3, 1, 2, 2>>, <<2, 1, 1>>}
VS == {<<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 3>>, <<2, 2, 2>>, <<3, 1>>, <<2, 1>>}
CS == {<<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 2>>, <<2, 1>>}
Export == out.done => CSVWrite("%1$s", <<ToJson([
   t |-> call.t, x |-> call.x, v |-> call.v, c |-> call.c,
   ok |-> out.ok, shape |-> out.shape, data |-> out.data])>>, IOEnv.OUT)
=============================================================================
