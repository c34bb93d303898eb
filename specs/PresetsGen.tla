----------------------------- MODULE PresetsGen -----------------------------
EXTENDS Presets, Json, CSV, IOUtils

CONSTANTS TimeCfgs, Seeds, Layouts, Big

None == [kind |-> "none", n |-> 0, times |-> <<>>]
Count(m) == [kind |-> "count", n |-> m, times |-> <<>>]
Times(s) == [kind |-> "times", n |-> 0, times |-> s]
Tm(tl, i0, st) == [tl |-> tl, i0 |-> i0, steps |-> st]

TimesQuick == {Tm(<<0, 1, 3>>, 1, None), Tm(<<0, 1, 2>>, 3, None), Tm(<<-1, 0, 1>>, 2, None),
               Tm(<<0, 2, 4>>, 1, Times(<<1, 3>>)), Tm(<<1, 5>>, 1, Count(5)), Tm(<<2>>, 1, None)}
TimesMore == TimesQuick \cup
   {Tm(<<0, 1, 2, 3, 4>>, 1, None), Tm(<<0, 1, 2, 3, 4>>, 5, None), Tm(<<0, 2, 4>>, 2, Times(<<1, 3>>)),
    Tm(<<-2, 0, 3>>, 1, Times(<<-1, 1, 2>>)), Tm(<<0, 3>>, 2, Count(4)), Tm(<<0, 2, 3>>, 3, Times(<<1>>))}

L(vs, p) == [vshape |-> vs, paths |-> p]
LayoutsQuick == {L(<<>>, 1), L(<<>>, 2), L(<<2>>, 1), L(<<2>>, 2), L(<<2, 2>>, 1), L(<<1, 2>>, 1), L(<<1>>, 2)}
LayoutsMore == LayoutsQuick \cup {L(<<1>>, 3), L(<<3>>, 1), L(<<1, 2>>, 2), L(<<3, 1>>, 1)}

A(a, b, c) == [a |-> a, b |-> b, c |-> c]
Zero == A(0, 0, 0)
Pr(mu, sigma, theta, k, xi) == [mu |-> mu, sigma |-> sigma, theta |-> theta, k |-> k, xi |-> xi]

ParA == Pr(A(1, 2, 1), A(2, 1, 1), A(1, 1, 1), A(1, 1, 0), A(1, 0, 1))
ParB == Pr(A(-1, 0, 0), A(1, 0, -1), A(2, 0, 0), A(1, 0, 0), A(2, 0, 0))
ParC == Pr(A(0, -1, 2), A(-1, 1, 0), A(3, -1, 2), A(2, -1, 1), A(3, 1, 0))

Names == {"wiener", "lognorm", "ou", "hw", "hw1", "cir", "heston", "full_heston",
          "jumpdiff", "merton", "kou"}

Takes(n) ==
  CASE n \in {"wiener", "lognorm", "jumpdiff", "merton", "kou"} -> {"x0", "mu", "sigma"}
    [] n \in {"ou", "hw1"} -> {"x0", "theta", "k", "sigma"}
    [] n = "hw" -> {"x0", "theta", "k", "sigma", "factors"}
    [] n = "cir" -> {"x0", "theta", "k", "xi"}
    [] OTHER -> {"x0", "y0", "mu", "sigma", "theta", "k", "xi"}

Givens(n) == {Takes(n), {}} \cup {Takes(n) \ {p} : p \in Takes(n)}

\* the noise divides by xi and by the square root of the state
Usable(c) ==
  /\ "xi" \in c.given => \A t \in Required(c) : \A k \in 1..Cells(c) : V(c, "xi", t, k) # 0

Selected(c) ==
  \/ Big
  \/ Len(c.vshape) = 2 /\ c.given = Takes(c.name) /\ c.par = ParA /\ Len(c.tl) = 3
  \/ Len(c.vshape) < 2 /\ c.given = Takes(c.name)
  \/ c.given # {} /\ Len(c.vshape) < 2 /\ (Len(c.tl) + Len(c.vshape) + c.paths + c.i0 + Cardinality(c.given)) % 2 = 0
  \/ c.given = {} /\ c.par = ParA

Init ==
  \E nm \in Names, t \in TimeCfgs, l \in Layouts, p \in {ParA, ParB, ParC} :
  \E g \in Givens(nm), f \in IF nm = "hw" THEN {1, 2, 3, 5} ELSE {1},
     sd \in IF nm \in {"cir", "heston", "full_heston"} THEN Seeds ELSE {0} :
    LET c == [name |-> nm, tl |-> t.tl, i0 |-> t.i0, steps |-> t.steps, K |-> 2,
              vshape |-> l.vshape, paths |-> l.paths, factors |-> f, par |-> p, given |-> g,
              x0 |-> [x |-> 1, y |-> 2], seed |-> sd]
    IN Usable(c) /\ Selected(c) /\ InitCfg(c)
Spec == Init /\ [][Next]_vars

\* long timelines, many steps; many paths and values
TimesLong == {Tm([i \in 1..130 |-> i], 1, None), Tm([i \in 1..130 |-> i], 130, None),
              Tm(<<0, 60, 150>>, 1, Count(151)), Tm([i \in 1..40 |-> 3*i], 1, Times([i \in 1..120 |-> i]))}
LayoutsLong == {L(<<>>, 2)}
TimesBig == {Tm(<<0, 1, 3>>, 1, None), Tm(<<0, 1, 2>>, 3, None)}
LayoutsBig == {L(<<>>, 1200), L(<<70>>, 3), L(<<3, 20>>, 2)}
InitSize ==
  \E nm \in Names, t \in TimeCfgs, l \in Layouts :
  \E g \in {Takes(nm), {}} :
    LET c == [name |-> nm, tl |-> t.tl, i0 |-> t.i0, steps |-> t.steps, K |-> 2,
              vshape |-> l.vshape, paths |-> l.paths, factors |-> 2, par |-> ParB, given |-> g,
              x0 |-> [x |-> 1, y |-> 2], seed |-> 1]
    IN /\ Usable(c) /\ (OuLike(c) => t.i0 = 1) /\ InitCfg(c)
SpecSize == InitSize /\ [][Next]_vars

Export ==
  phase = "done" =>
    CSVWrite("%1$s", <<ToJson([cfg |-> cfg, out |-> out, noise |-> noise, negy |-> negy,
                               jcount |-> jcount, jrate |-> jrate, ncomp |-> ncomp,
                               nstore |-> nstore, dir |-> dir])>>, IOEnv.OUT)
=============================================================================
