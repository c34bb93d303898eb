-------------------------- MODULE DefaultNoiseGen ---------------------------
EXTENDS DefaultNoise, Json, CSV, IOUtils, TLC

U(n, d, v, e) == [name |-> n, dim |-> d, vshape |-> v, extra |-> e]
\* extra: number of factors (Hull-White), layout (SDEs: 1 for an axis added)
Gauss ==
  {U(n, 2, <<2>>, 0) : n \in {"SDE", "wiener", "lognorm", "ou", "hw1", "cir", "jumpdiff", "merton", "kou"}}
  \cup {U(n, 4, <<2, 4>>, 0) : n \in {"SDE", "wiener", "lognorm", "cir", "kou"}}
  \cup {U("hw", 2, <<>>, 2), U("hw", 2, <<3>>, 2), U("hw", 4, <<2>>, 4)}
  \cup {U(n, 2, <<>>, 0) : n \in {"heston", "full_heston"}}
  \cup {U(n, 2, <<1>>, 0) : n \in {"heston", "full_heston"}}
  \cup {U(n, 4, <<2>>, 0) : n \in {"heston", "full_heston"}}
  \cup {U(n, 4, <<3, 2>>, 0) : n \in {"heston", "full_heston"}}
  \cup {U("SDEs", 2, <<>>, 0), U("SDEs", 2, <<3>>, 1), U("SDEs", 4, <<2>>, 0)}
NoUsers == {}
AllCorrs == {"none", "half", "step", "linear", "matrix"}

Jumpers == {U(n, 0, v, 0) : n \in {"jumpdiff", "merton", "kou"}, v \in {<<>>, <<2>>}}
           \cup {U("SDE", 0, v, 0) : v \in {<<>>, <<2>>}}

K(v) == [cl |-> FALSE, v |-> << <<v, R(0)>> >>]
K2(v, w) == [cl |-> FALSE, v |-> << <<v, R(0)>>, <<w, R(0)>> >>]
F(c, d) == [cl |-> TRUE, v |-> << <<c, d>> >>]
F2(c, d, e, f) == [cl |-> TRUE, v |-> << <<c, d>>, <<e, f>> >>]
H == <<1, 2>>
Q == <<1, 4>>
NoPool(x) == {}
SomeLams == {<<FALSE, K(R(1))>>, <<TRUE, K(H)>>, <<TRUE, F(R(1), Q)>>,
             <<TRUE, K2(R(2), Q)>>, <<TRUE, F2(R(2), R(0), R(1), <<-1, 8>>)>>}
PoolB(x) ==
  CASE x = <<"norm", "a">> -> {K(R(-1)), F(R(1), R(-1))}
    [] x = <<"norm", "b">> -> {K(H), K(R(0)), F(R(2), H)}
    [] x = <<"uniform", "a">> -> {K(R(-1)), F(R(0), R(-1))}
    [] x = <<"uniform", "b">> -> {K(R(4)), F(R(5), R(1))}
    [] x = <<"exp", "a">> -> {K(R(-2)), F(H, Q)}
    [] x = <<"double_exp", "a">> -> {K(Q), F(R(1), <<1, 8>>)}
    [] x = <<"double_exp", "b">> -> {K(R(2)), F(H, <<1, 8>>)}
    [] x = <<"double_exp", "pa">> -> {K(Q), K(R(0)), K(R(1)), F(H, <<1, 16>>)}

DistOf(u) == CASE u = "merton" -> {"norm"} [] u = "kou" -> {"double_exp"}
               [] OTHER -> {"uniform", "exp", "norm", "double_exp"}
\* each parameter of the distribution is given, or not; for a distribution
\* given as such, all are (or it is the default one)
Pars(u, d) ==
  LET P == {Params(d)[k] : k \in 1..Len(Params(d))}
      ps(p) == {<<TRUE, x>> : x \in PoolB(<<d, p>>)} \cup
               (IF u \in {"merton", "kou"} THEN {<<FALSE, UserDefault(u, p)>>} ELSE {})
      all == {f \in [P -> UNION {ps(p) : p \in P}] : \A p \in P : f[p] \in ps(p)}
  IN all \cup (IF d = "uniform" /\ u \notin {"merton", "kou"}
               THEN {[p \in P |-> <<FALSE, UserDefault(u, p)>>]} ELSE {})

Tls == {<<0, 2, 6, 8>>, <<2, 0, -2>>}
Empty == [p \in {"a"} |-> <<TRUE, K(R(1))>>]

InitGauss == \E u \in Gauss, c \in Corrs, tl \in Tls :
               /\ InitNoise(u, c, <<FALSE, K(R(1))>>, "exp", Empty, tl)
InitJumps == \E u \in Jumpers, l \in Lams, tl \in Tls :
               \E d \in DistOf(u.name) : \E f \in Pars(u.name, d) :
                 InitNoise(u, "none", l, d, f, tl)
SpecGauss == InitGauss /\ [][NStep]_nvars
SpecJumps == InitJumps /\ [][NStep]_nvars

Export ==
  Len(todo) = 1 =>
    CSVWrite("%1$s", <<ToJson([user |-> user, corr |-> corr, lam |-> lam, dist |-> dist,
                               par |-> par, log |-> log])>>, IOEnv.OUT)
=============================================================================
