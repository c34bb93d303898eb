----------------------------- MODULE ProcMemGen -----------------------------
EXTENDS ProcMem, Json, CSV, IOUtils, TLC
ShapesA == {<<3, 2>>, <<1, 1>>, <<2, 2, 2>>, <<2, 1, 2, 2>>, <<3, 1, 2>>, <<2, 3, 2, 1>>,
            <<1, 1, 0, 0, 1>>, <<2, 2, 0>>, <<1, 0, 2, 1>>}
ShapesB == {<<3, 2, 2>>, <<2, 1, 2, 2>>}
ShapesBig == {<<2, 700>>, <<150, 3, 2>>, <<2, 60, 3>>, <<300, 1>>}
Sl(a, b) == Slice(a, b, 1)
TIdxA == {At(0), At(1), At(-1), At(-2), At(3), At(-4), All, Sl(1, None), Sl(None, -1), Slice(None, None, -1),
          Slice(None, None, 2), Sl(2, 1), Dots}
VIdxA == {<<At(0)>>, <<At(1)>>, <<At(-1)>>, <<Sl(0, 1)>>, <<All>>, <<Dots>>, <<At(0), At(1)>>, <<At(0), All>>,
          <<All, At(0)>>, <<Dots, At(-1)>>, <<New>>, <<Dots, Sl(1, None)>>, <<Slice(None, None, -1)>>,
          <<Sl(0, 1), At(-1)>>, <<New, At(0)>>, <<At(0), Dots>>, <<At(5)>>}
PIdxA == {At(0), At(1), At(-1), At(-2), All, Sl(1, None), Slice(None, None, -1), Sl(None, 1)}
XIdxA == {<<>>, <<At(0)>>, <<At(-1)>>, <<Sl(1, None)>>, <<Dots>>, <<All, At(0)>>, <<Dots, At(0)>>, <<At(0), Dots, At(-1)>>,
          <<Dots, Slice(None, None, -1)>>, <<New>>, <<At(7)>>}
ListsA == {<<0>>, <<0, 0>>, <<1, 0>>, <<2>>, <<0, 2>>}
TargetsA == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<3, 3>>, <<1, 1, 1>>, <<0>>, <<0, 2>>}
TIdxB == {At(1), At(-1), Sl(1, None), Slice(None, None, -1)}
VIdxB == {<<At(0)>>, <<Sl(0, 1)>>, <<Dots, At(1)>>, <<New>>}
PIdxB == {At(1), Sl(1, None), Slice(None, None, -1)}
XIdxB == {<<>>, <<At(0)>>, <<Dots, At(0)>>}
ListsB == {<<1, 0>>}
TargetsB == {<<>>, <<2>>, <<1, 1, 1>>}
Everything == {"t", "v", "p", "x", "shapeas", "pcopy", "xcopy", "tcopy", "write", "writet"}
Derive == Everything \ {"write", "writet"}
Export == Len(log) = MaxOps =>
  CSVWrite("%1$s", <<ToJson([shape |-> shape0, log |-> log, bufs |-> bufs,
     objs |-> objs])>>, IOEnv.OUT)
=============================================================================
