------------------------------ MODULE Analytic ------------------------------
(***************************************************************************)
(* The laws of the built-in processes, advanced in time.                   *)
(*                                                                         *)
(* The state is what is known of the value of the process at time t: its   *)
(* mean and variance, or the exponents of its characteristic function, or  *)
(* what enters the price of an option.  A step of length dt is given by    *)
(* the conditional law of the process after dt, so that the invariant      *)
(* Compose (any sequence of steps leads to what a single step from 0 leads *)
(* to) is the composition over consecutive time intervals.                 *)
(*                                                                         *)
(* Rates are given in units of L = log(2), so that exp(-k*t) is rational.  *)
(* Rationals are <<n, d>>; pairs [q, l] stand for q + l*L.                 *)
(***************************************************************************)
EXTENDS Rat, Sequences, TLC

CONSTANTS Fams, ParsOf(_), Dts, MaxSteps

VARIABLES fam, par, t, st, hist
vars == <<fam, par, t, st, hist>>

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN <<1, 1>> ELSE IF n > 0 THEN RMul(<<2, 1>>, Pow2(n - 1))
           ELSE RMul(<<1, 2>>, Pow2(n + 1))
\* two to an integer given as a rational
PowR(q) == IF q[2] = 1 THEN Pow2(q[1]) ELSE Assert(FALSE, <<"exponent", q>>)
Zero == <<0, 1>>
One == <<1, 1>>
Half(a) == RMul(<<1, 2>>, a)
Sq(a) == RMul(a, a)
Times(n, a) == RMul(<<n, 1>>, a)

P(q, l) == [q |-> q, l |-> l]
PAdd(a, b) == P(RAdd(a.q, b.q), RAdd(a.l, b.l))
PMul(r, a) == P(RMul(r, a.q), RMul(r, a.l))
PZero == P(Zero, Zero)

(*-------------------------- Wiener ---------------------------------------*)
\* par: x0, mu, s (sigma), all rational
WienerStart(p) == [m |-> p.x0, v |-> Zero]
WienerStep(p, x, d) == [m |-> RAdd(x.m, Times(d, p.mu)), v |-> RAdd(x.v, Times(d, Sq(p.s)))]

(*-------------------------- lognormal ------------------------------------*)
\* par: x0 = 2^j, mu = m*L, sigma^2 = s*L (j, m, s integers);
\* lm, lv: mean and variance of the logarithm, in units of L
LogStart(p) == [m |-> Pow2(p.j), m2 |-> Pow2(2*p.j), lm |-> <<p.j, 1>>, lv |-> Zero]
LogStep(p, x, d) ==
  [m |-> RMul(x.m, Pow2(p.m*d)), m2 |-> RMul(x.m2, Pow2((2*p.m + p.s)*d)),
   lm |-> RAdd(x.lm, Norm((2*p.m - p.s)*d, 2)), lv |-> RAdd(x.lv, <<p.s*d, 1>>)]

(*-------------------------- mean reverting -------------------------------*)
\* par: x0, theta, k in units of L, w with sigma^2 = w^2*L
Decay(k, d) == Pow2(-(k*d))
OruhStart(p) == [m |-> p.x0, v |-> Zero]
OruhStep(p, x, d) ==
  LET D == Decay(p.k, d)
  IN [m |-> RAdd(p.theta, RMul(D, RSub(x.m, p.theta))),
      v |-> RAdd(RMul(Sq(D), x.v), RMul(RDiv(Sq(p.w), <<2*p.k, 1>>), RSub(One, Sq(D))))]

\* two factors, with correlation rho: par.f = <<factor 1, factor 2>>
HwStart(p) == [m1 |-> p.f[1].x0, m2 |-> p.f[2].x0, v11 |-> Zero, v12 |-> Zero, v22 |-> Zero]
HwStep(p, x, d) ==
  LET f == p.f[1]  g == p.f[2]  D == Decay(f.k, d)  E == Decay(g.k, d)
      V(a, b, A, B) == RMul(RDiv(RMul(a.w, b.w), <<a.k + b.k, 1>>), RSub(One, RMul(A, B)))
  IN [m1 |-> RAdd(f.theta, RMul(D, RSub(x.m1, f.theta))),
      m2 |-> RAdd(g.theta, RMul(E, RSub(x.m2, g.theta))),
      v11 |-> RAdd(RMul(Sq(D), x.v11), V(f, f, D, D)),
      v12 |-> RAdd(RMul(RMul(D, E), x.v12), RMul(p.rho, V(f, g, D, E))),
      v22 |-> RAdd(RMul(Sq(E), x.v22), V(g, g, E, E))]

(*-------------------------- square root ----------------------------------*)
\* conditional variance of a square-root process: linear in its value
\* (k in units of L, z with xi^2 = z*L)
SqrtMean(y, theta, D) == RAdd(theta, RMul(D, RSub(y, theta)))
SqrtVar(y, theta, k, z, D) ==
  LET C == RSub(One, D)
  IN RMul(RDiv(z, <<k, 1>>), RAdd(RMul(y, RMul(D, C)), Half(RMul(theta, Sq(C)))))
CirStart(p) == [m |-> p.x0, v |-> Zero]
CirStep(p, x, d) ==
  LET D == Decay(p.k, d)
  IN [m |-> SqrtMean(x.m, p.theta, D),
      v |-> RAdd(RMul(Sq(D), x.v), SqrtVar(x.m, p.theta, p.k, p.z, D))]

(*-------------------------- Heston ---------------------------------------*)
\* par: x0 = 2^j, mu = m*L, sigma^2 = s*L, k in units of L, xi^2 = z*L,
\* rho*sigma*xi = c*L, y0, theta (m, j, k integers, the rest rational);
\* state: mean of log(x), of x, of y, and their covariances
HesStart(p) == [lx |-> P(Zero, <<p.j, 1>>), x |-> Pow2(p.j), y |-> p.y0,
                vxx |-> PZero, vxy |-> PZero, vyy |-> Zero]
\* conditional covariances after d, given y: a part linear in y, a constant
\* part proportional to theta, and terms in the time spent, d*L
HesXY(p, y, D, d) ==
  LET k == <<p.k, 1>>  ck == RMul(p.c, k)  sz == RMul(p.s, p.z)  kk == Sq(k)
      C1 == RSub(Times(2, ck), sz)                  \* 2*c*k - s*z
      q == RAdd(RMul(y, RMul(RDiv(sz, Times(2, kk)), RSub(D, Sq(D)))),
                RMul(p.theta,
                  RAdd(RSub(RDiv(RSub(Times(4, ck), sz), Times(4, kk)), RMul(RDiv(p.c, k), D)),
                       RMul(RDiv(sz, Times(4, kk)), Sq(D)))))
      l == RMul(RMul(RDiv(C1, Times(2, k)), D), RSub(y, p.theta))
  IN P(q, Times(d, l))
HesXX(p, y, D, d) ==
  LET k == <<p.k, 1>>  kk == Sq(k)  kkk == RMul(k, kk)
      s == p.s  ck == RMul(p.c, k)  sz == RMul(p.s, p.z)
      C1 == RSub(Times(2, ck), sz)
      C2 == RAdd(RSub(Times(4, kk), Times(4, ck)), sz)          \* 4k^2 - 4ck + sz
      C3 == RAdd(RSub(Times(8, kk), Times(16, ck)), Times(5, sz))
      C4 == RAdd(RSub(Times(2, kk), Times(4, ck)), sz)
      Y == RAdd(RAdd(RDiv(RMul(s, C2), Times(4, kkk)),
                     RMul(D, RDiv(RMul(s, RSub(p.c, k)), kk))),
                RNeg(RMul(Sq(D), RDiv(RMul(s, sz), Times(4, kkk)))))
      T == RAdd(RAdd(RNeg(RDiv(RMul(s, C3), Times(8, kkk))),
                     RMul(D, RDiv(RMul(s, C4), Times(2, kkk)))),
                RMul(Sq(D), RDiv(RMul(s, sz), Times(8, kkk))))
      l == RAdd(RMul(p.theta, RDiv(RMul(s, C2), Times(4, kk))),
                RMul(RMul(D, RDiv(RMul(s, C1), Times(2, kk))), RSub(y, p.theta)))
  IN P(RAdd(RMul(y, Y), RMul(p.theta, T)), Times(d, l))
HesStep(p, x, d) ==
  LET D == Decay(p.k, d)
      k == <<p.k, 1>>
      g == RDiv(RMul(Half(p.s), RSub(One, D)), k)     \* sensitivity of log(x) to y
      drift == P(RNeg(RMul(g, RSub(x.y, p.theta))),
                 Times(d, RSub(<<p.m, 1>>, Half(RMul(p.s, p.theta)))))
  IN [lx |-> PAdd(x.lx, drift),
      x |-> RMul(x.x, Pow2(p.m*d)),
      y |-> SqrtMean(x.y, p.theta, D),
      vyy |-> RAdd(RMul(Sq(D), x.vyy), SqrtVar(x.y, p.theta, p.k, p.z, D)),
      vxy |-> PAdd(PMul(D, PAdd(x.vxy, P(RNeg(RMul(g, x.vyy)), Zero))), HesXY(p, x.y, D, d)),
      vxx |-> PAdd(PAdd(x.vxx, PMul(Times(-2, g), x.vxy)),
                   PAdd(P(RMul(Sq(g), x.vyy), Zero), HesXX(p, x.y, D, d)))]

(*-------------------------- jump-diffusions ------------------------------*)
\* par: x0 = 2^j, mu = m*L, lam = l*L, sigma;  e: mean of the exponential of
\* a jump, such that l*(e - 1) is an integer;
\* lx: drift of the log without jumps, lv: its variance, lt: lam*t
JumpStart(p) == [m |-> Pow2(p.j), lx |-> P(Zero, <<p.j, 1>>), lv |-> Zero, lt |-> Zero]
JumpStep(p, x, d) ==
  [m |-> RMul(x.m, PowR(Times(d, RAdd(<<p.m, 1>>, Times(p.l, RSub(p.e, One)))))),
   lx |-> PAdd(x.lx, P(RNeg(Half(Times(d, Sq(p.s)))), <<p.m*d, 1>>)),
   lv |-> RAdd(x.lv, Times(d, Sq(p.s))),
   lt |-> RAdd(x.lt, <<p.l*d, 1>>)]
\* Merton: normal jumps of standard deviation b, mean a = n*L - b^2/2, so that e = 2^n
\* Kou: exponential jumps upwards of mean a with probability pa, or downwards of mean b
KouMean(p) == RAdd(RDiv(p.pa, RSub(One, p.a)), RDiv(RSub(One, p.pa), RAdd(One, p.b)))
\* mean of exp(i*u*jump) - 1, for a jump of given mean: i*u*a/(1 - i*u*a)
ExpJump(a, u) ==
  LET ua == RMul(u, a)  n == RAdd(One, Sq(ua))
  IN [re |-> RNeg(RDiv(Sq(ua), n)), im |-> RDiv(ua, n)]
KouJump(p, u) ==
  LET A == ExpJump(p.a, u)  B == ExpJump(RNeg(p.b), u)
  IN [re |-> RAdd(RMul(p.pa, A.re), RMul(RSub(One, p.pa), B.re)),
      im |-> RAdd(RMul(p.pa, A.im), RMul(RSub(One, p.pa), B.im))]

(*-------------------------- options --------------------------------------*)
\* par: x0 = k*2^j, r, q in units of L (integers), s = sigma^2 (rational);
\* f: forward over strike as a power of two, v: variance to maturity
BsStart(p) == [f |-> p.j, v |-> Zero, dr |-> One, dq |-> One]
BsStep(p, x, d) == [f |-> x.f + (p.r - p.q)*d, v |-> RAdd(x.v, Times(d, p.s)),
                    dr |-> RMul(x.dr, Pow2(-(p.r*d))), dq |-> RMul(x.dq, Pow2(-(p.q*d)))]

(*-------------------------------------------------------------------------*)
Start(f, p) == CASE f = "wiener" -> WienerStart(p) [] f = "lognorm" -> LogStart(p)
                 [] f = "oruh" -> OruhStart(p) [] f = "hw2f" -> HwStart(p)
                 [] f = "cir" -> CirStart(p) [] f = "heston" -> HesStart(p)
                 [] f \in {"mjd", "kou"} -> JumpStart(p) [] f = "bs" -> BsStart(p)
Step(f, p, x, d) ==
  CASE f = "wiener" -> WienerStep(p, x, d) [] f = "lognorm" -> LogStep(p, x, d)
    [] f = "oruh" -> OruhStep(p, x, d) [] f = "hw2f" -> HwStep(p, x, d)
    [] f = "cir" -> CirStep(p, x, d) [] f = "heston" -> HesStep(p, x, d)
    [] f \in {"mjd", "kou"} -> JumpStep(p, x, d) [] f = "bs" -> BsStep(p, x, d)

Init == /\ fam \in Fams /\ par \in ParsOf(fam)
        /\ t = 0 /\ st = Start(fam, par)
        /\ hist = <<[t |-> 0, st |-> st]>>
Next == Len(hist) <= MaxSteps /\ \E d \in Dts :
  /\ t' = t + d
  /\ st' = Step(fam, par, st, d)
  /\ hist' = Append(hist, [t |-> t + d, st |-> st'])
  /\ UNCHANGED <<fam, par>>
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Compose == t > 0 => st = Step(fam, par, Start(fam, par), t)
\* variances are not negative, and increase from 0
NonNeg == /\ fam \in {"wiener", "oruh", "cir"} => RLeq(Zero, st.v)
          /\ fam = "lognorm" => RLeq(Sq(st.m), st.m2)
          /\ fam = "hw2f" => RLeq(Zero, st.v11) /\ RLeq(Zero, st.v22)
          /\ fam = "heston" => RLeq(Zero, st.vyy)
\* mean of the lognormal and of its logarithm agree
LogMean == fam = "lognorm" => st.m = PowR(RAdd(st.lm, Half(st.lv)))
\* no arbitrage: forward is strike * 2^f
Forward == fam = "bs" => RMul(st.dq, Pow2(par.j)) = RMul(st.dr, Pow2(st.f))
Inv == Compose /\ NonNeg /\ LogMean /\ Forward
=============================================================================
