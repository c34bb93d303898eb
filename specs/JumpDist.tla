------------------------------ MODULE JumpDist ------------------------------
(***************************************************************************)
(* Jump distributions with variable parameters.                            *)
(*                                                                         *)
(* A parameter is [cl, v]: constant or a function of time, with one or two *)
(* components c0 + c1*t.  A distribution is a function of time iff any of  *)
(* its parameters is, or the function mapped over it asks for the time.    *)
(* State: the distribution built so far (constructor, then maps), and the  *)
(* time of evaluation; outcome: validity, moments, and the affine function *)
(* of the base variate that the maps amount to.                            *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets

CONSTANTS Dists, Pool(_), Maps, MaxMaps, Times

VARIABLES dist, par, maps, time
vars == <<dist, par, maps, time>>

Params(d) == CASE d = "norm" -> <<"a", "b">> [] d = "uniform" -> <<"a", "b">>
               [] d = "exp" -> <<"a">> [] d = "double_exp" -> <<"a", "b", "pa">>
Default(d, p) ==
  LET K(v) == [cl |-> FALSE, v |-> << <<v, R(0)>> >>]
  IN CASE p = "a" -> K(IF d \in {"norm", "uniform"} THEN R(0) ELSE R(1))
       [] p = "b" -> K(R(1)) [] p = "pa" -> K(<<1, 2>>)
Range(d, p) == {<<FALSE, Default(d, p)>>} \cup {<<TRUE, x>> : x \in Pool(<<d, p>>)}

\* par[p] = <<given?, parameter>>
Value(p) == par[p][2]
Comps(p) == Len(Value(p).v)
N == IF \E p \in DOMAIN par : Comps(p) = 2 THEN 2 ELSE 1
At(p, k, t) == LET c == Value(p).v[IF Comps(p) = 1 THEN 1 ELSE k]
               IN RAdd(c[1], RMul(c[2], R(t)))

Init == /\ dist \in Dists
        /\ par \in {f \in [ {Params(dist)[k] : k \in 1..Len(Params(dist))} ->
                            UNION {Range(dist, Params(dist)[k]) : k \in 1..Len(Params(dist))} ] :
                    \A p \in DOMAIN f : f[p] \in Range(dist, p)}
        /\ maps = <<>> /\ time = -1
Map(m) == /\ time = -1 /\ Len(maps) < MaxMaps
          /\ maps' = Append(maps, m) /\ UNCHANGED <<dist, par, time>>
Evaluate(t) == time = -1 /\ time' = t /\ UNCHANGED <<dist, par, maps>>
Next == (\E m \in Maps : Map(m)) \/ (\E t \in Times : Evaluate(t))
Spec == Init /\ [][Next]_vars

BaseTimed == \E p \in DOMAIN par : Value(p).cl
\* maps: z -> 2z + 1, t*z, s + z
MapTimed(m) == m \in {"t*z", "s+z"}
Timed == BaseTimed \/ \E k \in 1..Len(maps) : MapTimed(maps[k])

Valid1(k, t) ==
  LET X(p) == At(p, k, t) Pos(v) == RLt(R(0), v) NonNeg(v) == RLeq(R(0), v)
  IN CASE dist = "norm" -> NonNeg(X("b"))
       [] dist = "uniform" -> RLt(X("a"), X("b"))
       [] dist = "exp" -> X("a") # R(0)
       [] dist = "double_exp" -> /\ Pos(X("a")) /\ Pos(X("b"))
                                 /\ NonNeg(X("pa")) /\ RLeq(X("pa"), R(1))
\* degenerate distributions (of zero width) are left open
Open(k, t) == \/ dist = "uniform" /\ At("a", k, t) = At("b", k, t)
              \/ dist = "norm" /\ At("b", k, t) = R(0)
Valid(t) == \A k \in 1..N : Valid1(k, t)

Sq(x) == RMul(x, x)
Inf == <<1, 0>>
Mean(k, t) ==
  LET X(p) == At(p, k, t)
  IN CASE dist = "norm" -> X("a")
       [] dist = "uniform" -> RMul(RAdd(X("a"), X("b")), <<1, 2>>)
       [] dist = "exp" -> X("a")
       [] dist = "double_exp" ->
            RSub(RMul(X("pa"), X("a")), RMul(RSub(R(1), X("pa")), X("b")))
Second(k, t) ==  \* second moment
  LET X(p) == At(p, k, t)
  IN CASE dist = "norm" -> RAdd(Sq(X("a")), Sq(X("b")))
       [] dist = "uniform" -> RMul(<<1, 3>>, RAdd(Sq(X("a")), RAdd(Sq(X("b")), RMul(X("a"), X("b")))))
       [] dist = "exp" -> RMul(R(2), Sq(X("a")))
       [] dist = "double_exp" ->
            RMul(R(2), RAdd(RMul(X("pa"), Sq(X("a"))), RMul(RSub(R(1), X("pa")), Sq(X("b")))))
Var(k, t) == RSub(Second(k, t), Sq(Mean(k, t)))
\* E exp(y): rational for exponentials, otherwise left to the caller, given
\* the exponent (normal) or the end points (uniform)
ExpMean(k, t) ==
  LET X(p) == At(p, k, t) G(v) == IF RLt(v, R(1)) THEN RInv(RSub(R(1), v)) ELSE Inf
      H(v) == RInv(RAdd(R(1), v))
  IN CASE dist = "norm" -> RAdd(X("a"), RMul(<<1, 2>>, Sq(X("b"))))
       [] dist = "uniform" -> R(0)
       [] dist = "exp" -> G(X("a"))
       [] dist = "double_exp" ->
            IF ~RLt(X("a"), R(1)) THEN Inf
            ELSE RAdd(RMul(X("pa"), G(X("a"))), RMul(RSub(R(1), X("pa")), H(X("b"))))
\* the maps, together: z -> slope*z + shift
RECURSIVE Affine(_, _)
Affine(ms, t) ==
  IF Len(ms) = 0 THEN <<R(1), R(0)>>
  ELSE LET f == Affine(SubSeq(ms, 1, Len(ms) - 1), t) m == ms[Len(ms)]
       IN CASE m = "2*z+1" -> <<RMul(R(2), f[1]), RAdd(RMul(R(2), f[2]), R(1))>>
            [] m = "t*z" -> <<RMul(R(t), f[1]), RMul(R(t), f[2])>>
            [] m = "s+z" -> <<f[1], RAdd(f[2], R(t))>>

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Positive == time # -1 => \A k \in 1..N : Valid1(k, time) => RLeq(R(0), Var(k, time))
\* the documented variance of the double exponential
DoubleExp == (time # -1 /\ dist = "double_exp") => \A k \in 1..N :
  LET X(p) == At(p, k, time) q == RSub(R(1), X("pa"))
  IN Var(k, time) = RAdd(RMul(RMul(X("pa"), q), Sq(RAdd(X("a"), X("b")))),
                         RAdd(RMul(X("pa"), Sq(X("a"))), RMul(q, Sq(X("b")))))
\* Jensen, where rational
Jensen == (time # -1 /\ dist \in {"exp", "double_exp"}) => \A k \in 1..N :
  LET m == ExpMean(k, time)
  IN Valid1(k, time) /\ m # Inf => RLeq(RAdd(R(1), Mean(k, time)), m)
\* constants do not depend on time
Constant == (time # -1 /\ ~Timed) => \A t \in Times : \A k \in 1..N :
  Mean(k, t) = Mean(k, time) /\ Affine(maps, t) = Affine(maps, time)
Inv == Positive /\ DoubleExp /\ Jensen /\ Constant
=============================================================================
