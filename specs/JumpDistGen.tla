---------------------------- MODULE JumpDistGen ----------------------------
EXTENDS JumpDist, Json, CSV, IOUtils, TLC
K(v) == [cl |-> FALSE, v |-> << <<v, R(0)>> >>]
K2(v, w) == [cl |-> FALSE, v |-> << <<v, R(0)>>, <<w, R(0)>> >>]
F(c, d) == [cl |-> TRUE, v |-> << <<c, d>> >>]
F2(c, d, e, f) == [cl |-> TRUE, v |-> << <<c, d>>, <<e, f>> >>]
H == <<1, 2>>
Q == <<1, 4>>
PoolA(x) ==
  CASE x = <<"norm", "a">> -> {K(R(-1)), K(H), K2(R(1), R(-2)), F(R(1), R(-1)), F2(R(0), R(1), R(1), RNeg(H))}
    [] x = <<"norm", "b">> -> {K(H), K(R(0)), K(R(-1)), K2(R(1), R(2)), K2(R(1), R(-1)), F(H, H), F2(R(1), R(1), R(2), RNeg(H)), F(R(1), R(-1))}
    [] x = <<"uniform", "a">> -> {K(R(-1)), K(H), K2(R(0), R(-2)), F(R(0), R(-1)), F2(R(-1), H, R(0), R(0))}
    [] x = <<"uniform", "b">> -> {K(R(3)), K(R(-2)), K2(R(1), R(2)), F(R(1), R(1)), F2(R(2), H, R(1), R(1))}
    [] x = <<"exp", "a">> -> {K(H), K(R(-2)), K(R(2)), K(R(0)), K2(H, R(-3)), K2(R(1), R(0)), F(Q, Q), F(R(-1), RNeg(H)),
                              F(R(-1), R(1)), F2(R(1), R(1), RNeg(Q), R(-1))}
    [] x = <<"double_exp", "a">> -> {K(H), K(R(2)), K2(H, R(2)), F(Q, H), K(R(0)), F(R(1), R(-1))}
    [] x = <<"double_exp", "b">> -> {K(H), K2(R(2), Q), F2(R(1), R(1), Q, Q), K(R(-1))}
    [] x = <<"double_exp", "pa">> -> {K(Q), K(R(0)), K(R(1)), K2(Q, <<3, 4>>), F(R(0), H), K(R(2)), K2(H, RNeg(Q))}
Out == [k \in 1..N |-> [valid |-> Valid1(k, time), mean |-> Mean(k, time), var |-> Var(k, time),
          expmean |-> ExpMean(k, time), par |-> [p \in DOMAIN par |-> At(p, k, time)]]]
Export ==
  (time # -1 /\ \A k \in 1..N : ~Open(k, time)) =>
    CSVWrite("%1$s", <<ToJson([dist |-> dist, par |-> par, maps |-> maps, time |-> time,
       timed |-> Timed, basetimed |-> BaseTimed, valid |-> Valid(time),
       affine |-> Affine(maps, time), out |-> Out])>>, IOEnv.OUT)
=============================================================================
