------------------------------ MODULE Presets ------------------------------
(***************************************************************************)
(* The built-in processes, step by step, per their documented equations.   *)
(*                                                                         *)
(* A configuration c has the Timeline fields, and name (which process),    *)
(* vshape, paths, factors, par (parameter -> [a, b, c]: the value at time s *)
(* for component j is a + b*s + c*j), given (the parameters passed to the  *)
(* constructor, the others taking their documented defaults), x0 (initial  *)
(* values, unless not given), seed (selects the noise).                    *)
(*                                                                         *)
(* Everything is an integer: the state of a process integrated in          *)
(* logarithms is twice its natural logarithm; square roots are only met at *)
(* perfect squares, since the noise of a square-root equation is chosen    *)
(* such that the state moves to a perfect square, or to a negative value,  *)
(* and is recorded as a rational [n, d].                                   *)
(***************************************************************************)
EXTENDS Timeline, TLC

VARIABLES cfg, phase, dirs, dir, todo, at, x, step, out, noise, negy, jcount, jrate, ncomp, nstore

vars == <<cfg, phase, dirs, dir, todo, at, x, step, out, noise, negy, jcount, jrate, ncomp, nstore>>

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s)*Prod(Tail(s))
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

Heston(c) == c.name \in {"heston", "full_heston"}
Jumpy(c)  == c.name \in {"jumpdiff", "merton", "kou"}
LogName(c) == c.name \in {"lognorm"} \/ Jumpy(c) \/ Heston(c)
OuLike(c) == c.name \in {"ou", "hw", "hw1"}

E(c) == IF Heston(c) THEN 2 ELSE 1
Factors(c) == IF c.name = "hw" THEN (IF "factors" \in c.given THEN c.factors ELSE 1) ELSE 1
Cells(c) == Prod(c.vshape)*Factors(c)*c.paths      \* working cells per equation
OutCells(c) == Prod(c.vshape)*c.paths
Comp(c, k) == (k - 1) \div c.paths

Default(c, p) ==
  CASE p = "mu" -> 0 [] p = "sigma" -> 1
    [] p = "theta" -> IF OuLike(c) THEN 0 ELSE 1
    [] p = "k" -> 1 [] p = "xi" -> 1

\* the value of parameter p at time s for cell k
V(c, p, s, k) ==
  IF p \in c.given THEN c.par[p].a + c.par[p].b*s + c.par[p].c*Comp(c, k)
                   ELSE Default(c, p)

Roots == 0..7
IsSquare(v) == \E r \in Roots : r*r = v
Root(v) == CHOOSE r \in Roots : r*r = v
Pos(v) == IF v > 0 THEN v ELSE 0

\* initial values: per cell when given, else the documented default
X0(c, e, k) ==
  CASE e = 2 -> IF "y0" \in c.given THEN <<1, 4, 0, 9>>[((c.x0.y + k) % 4) + 1] ELSE 1
    [] e = 1 /\ LogName(c) -> IF "x0" \in c.given THEN c.x0.x + ((2*k) % 3) ELSE 0
    [] e = 1 /\ c.name = "cir" -> IF "x0" \in c.given THEN <<1, 4, 0, 9>>[((c.x0.x + k) % 4) + 1] ELSE 1
    [] OTHER -> IF "x0" \in c.given THEN c.x0.x + ((2*k) % 3) ELSE 0

\* integer noise
W(c, e, s, ds, k) == ((4*s + ds + 3*e + 2*k + c.seed) % 5) - 2
J(c, s, ds, k) == ((2*s + ds + 2*k + c.seed) % 5) - 2
Nj(c, s, ds, k) == ((2*s + ds + k + c.seed) % 3)*(IF ds < 0 THEN -1 ELSE 1)

Targets == <<1, -1, 4, 0, 9, -3>>
Target(c, n, k) == Targets[((c.seed + 5*n + 3*k) % 6) + 1]

\* a square-root equation, from y over (s, ds): new value, and noise
SqrtStep(c, y, s, ds, n, k) ==
  LET drift == V(c, "k", s, k)*(V(c, "theta", s, k) - Pos(y))*ds
      xi == V(c, "xi", s, k)
  IN IF y <= 0 THEN [v |-> y + drift, w |-> [n |-> 3, d |-> 1]]
     ELSE LET v == Target(c, n, k)
          IN [v |-> v, w |-> [n |-> v - y - drift, d |-> xi*Root(y)]]

Plain(m) == [n |-> m, d |-> 1]

\* new value and noise of equation e at cell k
Move(c, e, xx, s, ds, n, k) ==
  LET w == W(c, e, s, ds, k)
      mu == V(c, "mu", s, k)
      sg == V(c, "sigma", s, k)
      v == xx[e][k]
  IN CASE c.name = "wiener" -> [v |-> v + mu*ds + sg*w, w |-> Plain(w)]
       [] c.name = "lognorm" -> [v |-> v + (2*mu - sg*sg)*ds + 2*sg*w, w |-> Plain(w)]
       [] OuLike(c) -> [v |-> v + V(c, "k", s, k)*(V(c, "theta", s, k) - v)*ds + sg*w,
                        w |-> Plain(w)]
       [] c.name = "cir" -> SqrtStep(c, v, s, ds, n, k)
       [] Heston(c) /\ e = 1 ->
            LET yp == Pos(xx[2][k])
            IN [v |-> v + (2*mu - sg*sg*yp)*ds + 2*sg*Root(yp)*w, w |-> Plain(w)]
       [] Heston(c) /\ e = 2 -> SqrtStep(c, v, s, ds, n, k)
       [] Jumpy(c) -> [v |-> v + (2*mu - sg*sg)*ds + 2*sg*w + 2*J(c, s, ds, k),
                       w |-> Plain(w)]

\* reported values: the sum of the factors for Hull-White
Report(c, xx) ==
  IF c.name = "hw"
  THEN << [k \in 1..OutCells(c) |->
            SumSeq([f \in 1..Factors(c) |->
               xx[1][((k - 1) \div c.paths)*Factors(c)*c.paths + (f - 1)*c.paths
                     + ((k - 1) % c.paths) + 1]])] >>
  ELSE xx

Admissible(c, xx) ==
  (c.name = "cir" \/ Heston(c)) =>
     \A k \in 1..Cells(c) : LET y == xx[E(c)][k] IN y <= 0 \/ IsSquare(y)

InitCfg(c) ==
  /\ cfg = c /\ phase = "idle" /\ dirs = Directions(c) /\ dir = "-" /\ todo = <<>>
  /\ at = Start(c) /\ x = <<>> /\ step = 0
  /\ out = [i \in 1..Len(c.tl) |-> <<>>]
  /\ noise = <<>> /\ negy = <<>> /\ jcount = <<>> /\ jrate = <<>>
  /\ ncomp = 0 /\ nstore = 0

IsOutput(t) == t \in ToSet(cfg.tl)
Stored(o, t, xx) == IF IsOutput(t) THEN [o EXCEPT ![Idx(cfg, t)] = Report(cfg, xx)] ELSE o

Begin ==
  /\ phase = "idle" /\ dirs # <<>>
  /\ dir' = Head(dirs) /\ dirs' = Tail(dirs)
  /\ todo' = Tail(Route(cfg, Head(dirs)))
  /\ at' = Start(cfg)
  /\ x' = TLCEval([e \in 1..E(cfg) |-> TLCEval([k \in 1..Cells(cfg) |-> X0(cfg, e, k)])])
  /\ out' = Stored(out, Start(cfg), x')
  /\ negy' = [k \in 1..OutCells(cfg) |-> 0]
  /\ jcount' = [k \in 1..OutCells(cfg) |-> 0]
  /\ jrate' = [i \in 1..Len(cfg.tl) |-> 0]
  /\ phase' = IF todo' = <<>> THEN "idle" ELSE "run"
  /\ UNCHANGED <<cfg, step, noise, ncomp, nstore>>

\* index of the output interval being crossed, in the order they are crossed
Interval(s) == IF dir = "f" THEN Cardinality({i \in 1..Len(cfg.tl) : cfg.tl[i] <= s})
               ELSE Cardinality({i \in 1..Len(cfg.tl) : cfg.tl[i] >= s})

\* new values of all cells, and the noise that takes there
Moves(s, ds) ==
  TLCEval([e \in 1..E(cfg) |-> TLCEval([k \in 1..Cells(cfg) |-> Move(cfg, e, x, s, ds, step, k)])])
Step ==
  /\ phase = "run"
  /\ \E s \in {at}, ds \in {Head(todo) - at} : \E mv \in {Moves(s, ds)} :
     \E xx \in {TLCEval([e \in 1..E(cfg) |-> TLCEval([k \in 1..Cells(cfg) |-> mv[e][k].v])])} :
        /\ Admissible(cfg, xx) = TRUE   \* as a value, in one way
        /\ x' = xx
        /\ noise' = Append(noise, [s |-> s, ds |-> ds,
              w |-> [e \in 1..E(cfg) |-> [k \in 1..Cells(cfg) |-> mv[e][k].w]],
              j |-> [k \in 1..OutCells(cfg) |-> IF Jumpy(cfg) THEN J(cfg, s, ds, k) ELSE 0],
              n |-> [k \in 1..OutCells(cfg) |-> IF Jumpy(cfg) THEN Nj(cfg, s, ds, k) ELSE 0]])
        /\ negy' = IF Heston(cfg) THEN [k \in 1..OutCells(cfg) |->
                      negy[k] + (IF x[2][k] < 0 THEN 1 ELSE 0)] ELSE negy
        /\ jcount' = IF Jumpy(cfg) THEN [k \in 1..OutCells(cfg) |->
                      jcount[k] + Nj(cfg, s, ds, k)] ELSE jcount
        /\ jrate' = IF Jumpy(cfg)
                    THEN [jrate EXCEPT ![Interval(s)] =
                            @ + SumSeq([k \in 1..OutCells(cfg) |-> Nj(cfg, s, ds, k)])]
                    ELSE jrate
        /\ at' = Head(todo) /\ todo' = Tail(todo)
        /\ out' = Stored(out, at', x')
        /\ ncomp' = ncomp + 1
        /\ nstore' = nstore + (IF IsOutput(at') THEN 1 ELSE 0)
        /\ step' = step + 1
        /\ phase' = IF todo' = <<>> THEN "idle" ELSE "run"
  /\ UNCHANGED <<cfg, dirs, dir>>

Exit == phase = "idle" /\ dirs = <<>> /\ phase' = "done"
        /\ UNCHANGED <<cfg, dirs, dir, todo, at, x, step, out, noise, negy, jcount, jrate, ncomp, nstore>>

Next == Begin \/ Step \/ Exit

(***************************************************************************)
(* Properties of the design                                                *)
(***************************************************************************)
AllOut == phase = "done" => \A i \in 1..Len(cfg.tl) : out[i] # <<>>
\* steps entered with negative variance cannot outnumber the steps
NegBounded == phase # "idle" => \A k \in 1..Len(negy) : negy[k] <= ncomp
\* the jumps counted per interval add up to the jumps counted per path
JumpsAddUp == phase = "done" => SumSeq(jrate) = SumSeq(jcount)
\* every output but the start is reached by a step
Counts == phase = "done" => nstore = Len(cfg.tl) - 1 /\ ncomp >= nstore

Inv == AllOut /\ NegBounded /\ JumpsAddUp /\ Counts
=============================================================================
