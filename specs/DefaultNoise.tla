---------------------------- MODULE DefaultNoise ----------------------------
(***************************************************************************)
(* The noise a process builds by itself, when no source is given, from     *)
(* its parameters (corr or rho; lam; the jump distribution y, or the       *)
(* parameters a, b, pa of the Merton and Kou processes), step after step.  *)
(* Parameters depending on time are taken at the middle of each step.      *)
(* Parameters not given have the documented defaults.                      *)
(* The distribution of jumps is that of module JumpDist.                   *)
(***************************************************************************)
EXTENDS JumpDist, SequencesExt

CONSTANTS Users,       \* records [name, dim, ...]: who needs noise
          Corrs,       \* correlations to choose from
          Lams         \* intensities to choose from

VARIABLES user, corr, lam, todo, log

nvars == <<dist, par, maps, time, user, corr, lam, todo, log>>

AbsV(v) == IF v < 0 THEN -v ELSE v

(***************************************************************************)
(* Brownian increments                                                     *)
(***************************************************************************)
\* coupling of component i with i + n, at (integer) time m
Rho(c, m, i) ==
  LET r == CASE c = "half" -> <<1, 2>>
             [] c = "step" -> IF m < 2 THEN <<1, 2>> ELSE <<-1, 3>>
             [] c = "linear" -> Norm(m, 16)
             [] c \in {"none", "matrix"} -> R(0)
  IN IF i = 1 THEN r ELSE RMul(r, <<-1, 2>>)
\* correlation matrix of the d components of the noise
Matrix(c, d, m) ==
  [i \in 1..d |-> [j \in 1..d |->
     IF i = j THEN R(1)
     ELSE IF c = "matrix" THEN IF AbsV(i - j) = 1 THEN <<1, 2>> ELSE R(0)
     ELSE IF j = i + d \div 2 THEN Rho(c, m, i)
     ELSE IF i = j + d \div 2 THEN Rho(c, m, j) ELSE R(0)]]

(***************************************************************************)
(* Counts and jumps                                                        *)
(***************************************************************************)
\* intensity: <<given?, parameter>>, for each of two components
Intensity(m) ==
  LET p == IF lam[1] THEN lam[2] ELSE [cl |-> FALSE, v |-> << <<R(1), R(0)>> >>]
  IN [k \in 1..2 |->
        LET c == p.v[IF Len(p.v) = 1 THEN 1 ELSE k]
        IN RAdd(c[1], RMul(c[2], R(m)))]

\* defaults of the process for the parameters of its jumps
UserDefault(u, p) ==
  LET K(v) == [cl |-> FALSE, v |-> << <<v, R(0)>> >>]
  IN CASE u = "merton" -> K(IF p = "a" THEN R(0) ELSE R(1))
       [] u = "kou" -> K(<<1, 2>>)
       [] OTHER -> K(IF p = "a" THEN R(0) ELSE R(1))   \* uniform between 0 and 1

InitNoise(u, c, l, d, f, tl) ==
  /\ user = u /\ corr = c /\ lam = l /\ todo = tl /\ log = <<>>
  /\ dist = d /\ par = f /\ maps = <<>> /\ time = -1

NStep ==
  /\ Len(todo) > 1
  /\ LET t == todo[1]  s == todo[2]  m == (t + s) \div 2
     IN /\ time' = m
        /\ log' = Append(log,
             [t |-> t, dt |-> s - t,
              dw |-> IF user.dim = 0 THEN <<>> ELSE Matrix(corr, user.dim, m),
              lam |-> Intensity(m),
              jump |-> [mean |-> Mean(1, m), var |-> Var(1, m),
                        par |-> [p \in DOMAIN par |-> At(p, 1, m)]]])
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<dist, par, maps, user, corr, lam>>

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Steps == 1..Len(log)
\* matrices are correlation matrices
Correlations == \A n \in Steps : LET M == log[n].dw IN
  \A i, j \in 1..Len(M) : /\ M[i][j] = M[j][i] /\ M[i][i] = R(1)
                          /\ RLeq(R(-1), M[i][j]) /\ RLeq(M[i][j], R(1))
Intense == \A n \in Steps : \A k \in 1..2 : RLeq(R(0), log[n].lam[k])
Spread == \A n \in Steps : RLeq(R(0), log[n].jump.var)
\* a step done forward and the same step done backward have the same law
Reversible == \A a, b \in Steps :
  (log[a].t = log[b].t + log[b].dt /\ log[a].dt = -log[b].dt) =>
    /\ log[a].dw = log[b].dw /\ log[a].lam = log[b].lam
    /\ log[a].jump = log[b].jump
NInv == Correlations /\ Intense /\ Spread /\ Reversible
=============================================================================
