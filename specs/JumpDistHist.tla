---------------------------- MODULE JumpDistHist ----------------------------
(***************************************************************************)
(* Histories of a distribution with time-dependent parameters: each        *)
(* evaluation sees what the parameters are at that moment, whatever was    *)
(* evaluated before.  A parameter is revised (a process is written to, a   *)
(* function depends on something that changed).                            *)
(***************************************************************************)
EXTENDS JumpDistGen

CONSTANTS MaxLog, Revisions(_)

VARIABLES par0, log
hvars == <<vars, par0, log>>

OutAt(t) == [k \in 1..N |-> [mean |-> Mean(k, t), var |-> Var(k, t),
               expmean |-> ExpMean(k, t), par |-> [p \in DOMAIN par |-> At(p, k, t)]]]
Entry(op, p, x, t, out, aff) == [op |-> op, p |-> p, x |-> x, t |-> t, out |-> out, affine |-> aff]

HInit == Init /\ BaseTimed /\ par0 = par /\ log = <<>>
HMap(m) == log = <<>> /\ Map(m) /\ UNCHANGED <<par0, log>>
Look(t) ==
  /\ Len(log) < MaxLog /\ Valid(t) /\ \A k \in 1..N : ~Open(k, t)
  /\ log' = Append(log, Entry("eval", "-", 0, t, OutAt(t), Affine(maps, t)))
  /\ UNCHANGED <<vars, par0>>
Revise(p, x) ==
  /\ 0 < Len(log) /\ Len(log) < MaxLog - 1 /\ log[Len(log)].op = "eval"
  /\ par[p][1] /\ Value(p).cl /\ x.cl /\ Len(x.v) = Comps(p) /\ x # Value(p)
  /\ par' = [par EXCEPT ![p] = <<TRUE, x>>]
  /\ log' = Append(log, Entry("revise", p, x, 0, <<>>, <<>>))
  /\ UNCHANGED <<dist, maps, time, par0>>
HNext == \/ \E m \in Maps : HMap(m)
         \/ \E t \in Times : Look(t)
         \/ \E p \in DOMAIN par : \E x \in Revisions(<<dist, p>>) : Revise(p, x)
HSpec == HInit /\ [][HNext]_hvars

\* two evaluations at the same time with no revision in between agree
Stable == \A i, j \in 1..Len(log) :
  (i < j /\ log[i].op = "eval" /\ log[j].op = "eval" /\ log[i].t = log[j].t
   /\ \A k \in i..j : log[k].op = "eval") => log[i] = log[j]

HExport == Len(log) = MaxLog =>
  CSVWrite("%1$s", <<ToJson([dist |-> dist, par |-> par0, maps |-> maps, log |-> log])>>, IOEnv.OUT)

PoolH(x) ==
  CASE x = <<"norm", "a">> -> {F(R(1), R(-1)), F2(R(0), R(1), R(1), RNeg(H))}
    [] x = <<"norm", "b">> -> {K(H), F(H, H)}
    [] x = <<"uniform", "a">> -> {K(R(-1)), F(R(0), R(-1))}
    [] x = <<"uniform", "b">> -> {K(R(3)), F(R(2), R(1)), F2(R(2), H, R(1), R(1))}
    [] x = <<"exp", "a">> -> {F(Q, Q), F2(R(1), R(1), RNeg(Q), R(-1))}
    [] x = <<"double_exp", "a">> -> {K(H), F(Q, H)}
    [] x = <<"double_exp", "b">> -> {K(H), F2(R(1), R(1), Q, Q)}
    [] x = <<"double_exp", "pa">> -> {K(Q), F(Q, Q)}
RevH(x) ==
  CASE x = <<"norm", "a">> -> {F(R(3), R(2)), F2(R(2), R(1), R(-1), R(1))}
    [] x = <<"norm", "b">> -> {F(R(2), H)}
    [] x = <<"uniform", "a">> -> {F(R(-2), R(-1))}
    [] x = <<"uniform", "b">> -> {F(R(5), R(1)), F2(R(5), R(1), R(7), H)}
    [] x = <<"exp", "a">> -> {F(R(-1), R(-1)), F2(R(-1), RNeg(H), R(2), R(1))}
    [] x = <<"double_exp", "a">> -> {F(R(2), Q)}
    [] x = <<"double_exp", "b">> -> {F2(Q, Q, R(2), R(0))}
    [] x = <<"double_exp", "pa">> -> {F(<<3, 4>>, RNeg(Q))}
=============================================================================
