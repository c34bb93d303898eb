---------------------------- MODULE EulerSDEGen ----------------------------
EXTENDS EulerSDE, Json, CSV, IOUtils, TLC

CONSTANTS RunSeqs, Systems, Layouts, Pars, Logs, X0s, Faults

None == [kind |-> "none", n |-> 0, times |-> <<>>]
Count(m) == [kind |-> "count", n |-> m, times |-> <<>>]
Times(s) == [kind |-> "times", n |-> 0, times |-> s]
Tm(tl, i0, st) == [tl |-> tl, i0 |-> i0, steps |-> st]

TimesQuick ==
  {Tm(<<3>>, 1, None), Tm(<<0, 4>>, 1, None), Tm(<<0, 4>>, 2, None),
   Tm(<<0, 4>>, 1, Count(3)), Tm(<<2, 3, 6>>, 2, None),
   Tm(<<0, 4, 8>>, 2, Count(5)), Tm(<<0, 3, 5>>, 3, Times(<<4, 1>>)),
   Tm(<<-4, 0, 4>>, 2, Times(<<-2, 9>>)), Tm(<<-2, 1, 2>>, 1, Times(<<-1, -1, 7>>)),
   Tm(<<-2, 1, 2>>, 3, None), Tm(<<1, 4, 6>>, 2, Times(<<3, 2, 5>>))}
TimesMore == TimesQuick \cup
  {Tm(Asc(S), i, st) : S \in {R \in SUBSET {-4, -1, 0, 2, 4} : Cardinality(R) = 3},
                      i \in 1..3,
                      st \in {None, Times(<<1>>), Times(<<-3, 3>>)}}

Once(T) == {<<t>> : t \in T}
OnceQuick == Once(TimesQuick)
OnceMore == Once(TimesMore)
\* the same object run on several timelines
TimesRuns == {Tm(<<0, 4>>, 2, None), Tm(<<1, 2>>, 1, None), Tm(<<3>>, 1, None),
              Tm(<<-4, 0, 2>>, 2, Times(<<-1, 1>>))}
RunsTwo == {<<a, b, a>> : a, b \in TimesRuns}
RunsThree == {<<a, b, c>> : a \in TimesRuns, b, c \in TimesRuns \cup {Tm(<<0, 2, 3>>, 3, Count(2))}}

\* terms
K0(id, c) == [id |-> id, c0 |-> c, cx |-> <<0, 0, 0>>, ct |-> 0, cp |-> 0]
KX(id, c, cx) == [id |-> id, c0 |-> c, cx |-> cx, ct |-> 0, cp |-> 0]
KT(id, ct, cp) == [id |-> id, c0 |-> 1, cx |-> <<0, 0, 0>>, ct |-> ct, cp |-> cp]
KA(id, c, cx, ct, cp) == [id |-> id, c0 |-> c, cx |-> cx, ct |-> ct, cp |-> cp]
Sy(srcs, eqs) == [srcs |-> srcs, eqs |-> eqs]

Systems1 ==
  {Sy(<<"dt">>, << <<KA("dt", 1, <<1, 0, 0>>, 1, 1)>> >>),
   Sy(<<"dt", "dw">>, << <<KX("dt", 0, <<-1, 0, 0>>), KT("dw", 1, 1)>> >>),
   Sy(<<"dn", "dw">>, << <<K0("dw", 2)>> >>),
   Sy(<<"da", "dj", "dn", "dt", "dw", "zz">>,
     << <<KT("zz", 0, 1), KX("da", 1, <<1, 0, 0>>), K0("dt", -1), K0("dj", 2)>> >>),
   Sy(<<"dt", "zz">>, << <<>> >>),
   Sy(<<"dZ", "da10", "da9", "dt", "dw">>,
     << <<K0("dw", 1), KX("dt", 0, <<1, 0, 0>>), KT("da9", 1, 0), K0("dZ", 2), KT("da10", 0, 1)>> >>)}
Systems2 ==
  {Sy(<<"dt", "dw">>, << <<KX("dt", 1, <<0, 1, 0>>)>>, <<KX("dw", 0, <<1, 0, 0>>)>> >>),
   Sy(<<"da", "dt", "dw">>,
     << <<KT("dt", 1, 1), K0("dw", 2)>>, <<KX("dw", 1, <<0, -1, 0>>), K0("da", 1)>> >>),
   Sy(<<"dj", "dn", "dt">>, << <<>>, <<KX("dn", 0, <<1, 1, 0>>), KT("dj", 0, 1)>> >>),
   Sy(<<"dt", "dw">>, << <<K0("dw", 1)>>, <<K0("dw", -2), KT("dt", 0, -1)>> >>)}
Systems3 ==
  {Sy(<<"dt", "dw">>, << <<KX("dt", 0, <<0, 0, 1>>)>>, <<KX("dw", 1, <<1, 0, 0>>)>>,
                        <<K0("dw", 1), KX("dt", 0, <<0, 1, 0>>)>> >>),
   Sy(<<"dn", "dw", "zz">>, << <<K0("zz", 1)>>, <<>>, <<KT("dw", 1, 1), K0("dn", 1)>> >>)}
\* with infinite coefficients
SystemsBad ==
  {Sy(<<"dt", "dw">>, << <<K0("dt", Bad), K0("dw", 1)>>, <<KX("dw", 0, <<0, 1, 0>>)>> >>),
   Sy(<<"dt", "dw">>, << <<KX("dw", 1, <<1, 0, 0>>)>>, <<K0("dw", 2), K0("dt", Bad)>> >>),
   Sy(<<"dn", "dt">>, << <<K0("dn", Bad)>>, <<>> >>),
   Sy(<<"dt", "dw">>, << <<KX("dt", 1, <<0, 1, 0>>)>>, <<KX("dw", Bad, <<1, 0, 0>>)>> >>),
   Sy(<<"dn", "dw">>, << <<KX("dw", Bad, <<1, 0, 0>>), K0("dn", 1)>> >>),
   Sy(<<"dt", "dw">>, << <<KX("dt", 0, <<0, 0, 1>>)>>, <<K0("dw", Bad)>>,
                        <<K0("dw", 1), KX("dt", 1, <<1, 0, 0>>)>> >>)}
SystemsAll == Systems1 \cup Systems2 \cup Systems3

Ly(q, vs, p, a) == [q |-> q, vshape |-> vs, paths |-> p, addaxis |-> a]
LayoutsSingle == {Ly(0, <<>>, 1, FALSE), Ly(0, <<>>, 3, FALSE), Ly(0, <<2>>, 2, FALSE),
                  Ly(0, <<1, 2>>, 1, FALSE)}
LayoutsSystems ==
  {Ly(1, <<>>, 2, TRUE), Ly(1, <<2>>, 1, FALSE), Ly(1, <<2>>, 2, TRUE),
   Ly(2, <<>>, 2, TRUE), Ly(2, <<1>>, 1, FALSE), Ly(2, <<2>>, 2, FALSE), Ly(2, <<2>>, 1, TRUE),
   Ly(2, <<2, 1>>, 2, TRUE), Ly(2, <<2, 2>>, 1, FALSE),
   Ly(3, <<>>, 1, TRUE), Ly(3, <<2>>, 1, FALSE), Ly(3, <<1, 2>>, 2, FALSE), Ly(3, <<3>>, 1, TRUE)}
LayoutsBad == LayoutsSystems \cup {Ly(0, <<>>, 3, FALSE), Ly(0, <<2>>, 2, FALSE)}
LayoutsLog == {Ly(0, <<>>, 2, FALSE), Ly(0, <<2>>, 1, FALSE), Ly(1, <<>>, 1, TRUE),
               Ly(2, <<>>, 2, TRUE), Ly(2, <<2>>, 1, FALSE), Ly(2, <<2>>, 1, TRUE),
               Ly(3, <<1, 2>>, 1, FALSE), Ly(3, <<>>, 1, TRUE)}

Pr(kd, a, b, c, j) == [kind |-> kd, p0 |-> a, p1 |-> b, p2 |-> c, jump |-> j]
ParsFew == {Pr("callable", 1, 2, 0, 99)}
ParsSome == {Pr("callable", 1, 2, 0, 99), Pr("process", -1, 2, 1, 2)}
ParsAll == {Pr("const", 2, 0, 0, 99), Pr("callable", 1, 2, 0, 99), Pr("callarray", -1, 1, 0, 99),
            Pr("process", 1, -1, 0, 99), Pr("const", 1, 0, 1, 99), Pr("callarray", 1, 2, -1, 99),
            Pr("process", 0, 1, 1, 99), Pr("callable", 0, 2, 0, 3), Pr("callable", 2, -1, 0, -1),
            Pr("callarray", 1, 1, 1, 4), Pr("process", 1, 3, 0, 2), Pr("process", -1, 2, 1, 5)}

X0One == {[kind |-> "full", base |-> 1]}
X0All == {[kind |-> "scalar", base |-> 2], [kind |-> "pereq", base |-> -1],
          [kind |-> "full", base |-> 1], [kind |-> "bytime", base |-> 1]}
X0Log == X0All \cup {[kind |-> "zeros", base |-> 0]}
X0Runs == {[kind |-> "full", base |-> 1], [kind |-> "bytime", base |-> 0]}

NoFault == {[kind |-> "none", at |-> 0]}
FaultsAll == {[kind |-> f, at |-> n] : f \in {"fewer", "more", "undeclared", "notadict", "notalist"},
                                      n \in {1, 2, 3}}
TimesFault == {<<Tm(<<0, 4>>, 1, Times(<<1, 3>>)), Tm(<<0, 1, 3, 4>>, 3, None)>>,
               <<Tm(<<0, 1, 3, 4>>, 3, None), Tm(<<0, 1, 3, 4>>, 3, None)>>}
SystemsRuns == {Sy(<<"dt", "dw">>, << <<KX("dt", 0, <<-1, 0, 0>>), KT("dw", 1, 1)>> >>),
   Sy(<<"dt", "dw">>, << <<KX("dt", 1, <<0, 1, 0>>)>>, <<KX("dw", 0, <<1, 0, 0>>), KT("dt", 0, 1)>> >>)}
LayoutsRuns == {Ly(0, <<>>, 2, FALSE), Ly(0, <<2>>, 1, FALSE), Ly(2, <<>>, 1, TRUE), Ly(2, <<2>>, 1, FALSE)}
SystemsFault == {Sy(<<"dt", "dw">>, << <<KX("dt", 0, <<-1, 0, 0>>), KT("dw", 1, 1)>> >>),
   Sy(<<"dt", "dw">>, << <<KX("dt", 1, <<0, 1, 0>>)>>, <<KX("dw", 0, <<1, 0, 0>>)>> >>),
   Sy(<<"dn", "dw", "zz">>, << <<K0("zz", 1)>>, <<>>, <<KT("dw", 1, 1), K0("dn", 1)>> >>)}
LayoutsFault == {Ly(0, <<>>, 2, FALSE), Ly(1, <<2>>, 1, TRUE), Ly(2, <<2>>, 1, FALSE), Ly(2, <<>>, 2, TRUE), Ly(3, <<1>>, 2, TRUE)}

\* long timelines, and many steps
LongA == Tm([i \in 1..300 |-> i], 1, None)
LongB == Tm([i \in 1..90 |-> 5*i], 60, Count(446))
LongC == Tm([i \in 1..50 |-> 8*i], 50, Count(393))
LongD == Tm([i \in 1..200 |-> 2*i], 1, Times([i \in 1..100 |-> 4*i - 1]))
RunsLong == {<<LongA>>, <<LongB>>, <<LongD>>, <<LongC, Tm(<<0, 4>>, 1, None), LongC>>}
SystemsLong ==
  {Sy(<<"dt", "dw">>, << <<KX("dt", 3, <<-1, 0, 0>>), KT("dw", 0, 1)>> >>),
   Sy(<<"dn", "dw">>, << <<K0("dw", 2), K0("dn", -1)>> >>),
   Sy(<<"dt", "dw">>, << <<K0("dw", 1)>>, <<K0("dw", -2), KT("dt", 0, -1)>> >>)}
LayoutsLong == {Ly(0, <<2>>, 1, FALSE), Ly(2, <<>>, 2, TRUE)}
LayoutsLong1 == {Ly(0, <<2>>, 1, FALSE)}
LayoutsLong2 == {Ly(2, <<>>, 2, TRUE)}
ParsLong == {Pr("process", -1, 2, 1, 2)}
\* many paths and values
RunsBig == Once({Tm(<<3>>, 1, None), Tm(<<2, 3, 6>>, 2, None), Tm(<<0, 4, 8>>, 2, Count(5))})
SystemsBig == SystemsLong \cup
  {Sy(<<"dt", "dw">>, << <<KX("dt", 1, <<0, 1, 0>>)>>, <<KX("dw", 0, <<1, 0, 0>>)>> >>),
   Sy(<<"dn", "dw", "zz">>, << <<K0("zz", 1)>>, <<>>, <<KT("dw", 1, 1), K0("dn", 1)>> >>)}
LayoutsBig == {Ly(0, <<>>, 1300, FALSE), Ly(0, <<140>>, 2, FALSE), Ly(2, <<70>>, 3, TRUE),
               Ly(2, <<3>>, 150, FALSE), Ly(3, <<3, 40>>, 2, FALSE)}

\* feedback would make values grow, in many steps back in time
Stable(c) == \A i \in 1..Len(c.runs) : Len(c.runs[i].tl) < 50 \/ c.runs[i].i0 = 1
   \/ \A e \in 1..Len(c.eqs) : \A j \in 1..Len(c.eqs[e]) : c.eqs[e][j].cx = <<0, 0, 0>>

\* no feedback from the logarithm of 0
Defined(c) == c.x0.kind = "zeros" =>
   c.log /\ \A e \in 1..Len(c.eqs) : \A j \in 1..Len(c.eqs[e]) : c.eqs[e][j].cx = <<0, 0, 0>>

Configs ==
  {c \in {[runs |-> t, tl |-> t[1].tl, i0 |-> t[1].i0, steps |-> t[1].steps, K |-> 2, layout |-> l,
           eqs |-> s.eqs, srcs |-> s.srcs, par |-> p, x0 |-> z, log |-> g, fault |-> f]
            : t \in RunSeqs, l \in Layouts, s \in Systems, p \in Pars, z \in X0s, g \in Logs, f \in Faults}
     : E(c) = Len(c.eqs) /\ Stable(c) /\ Defined(c)}

Init == \E c \in Configs : InitCfg(c)
Spec == Init /\ [][Next]_vars

Export ==
  phase = "done" =>
    CSVWrite("%1$s", <<ToJson([cfg |-> cfg, runs |-> hist])>>,
             IOEnv.OUT)
=============================================================================
