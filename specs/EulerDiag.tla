----------------------------- MODULE EulerDiag ------------------------------
(***************************************************************************)
(* What the integration exposes about each step, to whoever tracks its     *)
(* progress: starting time and length of the last step, starting value,    *)
(* coefficients, increments of the sources, and value reached.             *)
(***************************************************************************)
EXTENDS EulerSDEGen

VARIABLE diag     \* for each run, the steps exposed so far
dvars == <<vars, diag>>

DInit == Init /\ diag = << <<>> >>
DNext ==
  /\ Next
  /\ diag' =
       IF phase = "draw" /\ nsrc = Len(cfg.srcs)
       THEN [diag EXCEPT ![Len(diag)] = Append(@,
              [t |-> at, dt |-> Ds, dir |-> dir, x |-> x, A |-> coefs, dZ |-> incs, new |-> x'])]
       ELSE IF Len(hist') > Len(hist) /\ phase' # "done" THEN Append(diag, <<>>) ELSE diag
DSpec == DInit /\ [][DNext]_dvars

\* steps follow each other, in each direction from the start
Chained == \A r \in 1..Len(diag) : \A n \in 2..Len(diag[r]) :
  LET a == diag[r][n - 1]  b == diag[r][n]
  IN a.dir = b.dir => b.t = a.t + a.dt /\ b.x = a.new /\ (a.dt > 0) = (b.dt > 0)
\* the value reached is what coefficients and increments give
Explained == \A r \in 1..Len(diag) : \A n \in 1..Len(diag[r]) :
  LET d == diag[r][n]
      of(id) == d.dZ[CHOOSE j \in 1..Len(d.dZ) : d.dZ[j].id = id].v
  IN \A e \in 1..E(cfg) : \A k \in 1..Cells(cfg) :
       d.new[e][k] = d.x[e][k] + SumSeq([j \in 1..Len(d.A[e]) |-> d.A[e][j].v[k]*of(d.A[e][j].id)[e][k]])
DInv == Chained /\ Explained

DExport ==
  phase = "done" =>
    CSVWrite("%1$s", <<ToJson([cfg |-> cfg, runs |-> hist, diag |-> diag])>>, IOEnv.OUT)
=============================================================================
