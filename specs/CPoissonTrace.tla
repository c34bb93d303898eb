---------------------------- MODULE CPoissonTrace ----------------------------
(***************************************************************************)
(* Are recorded compound Poisson increments explained by the counting      *)
(* increments and jump variates behind them?  A trace is a sequence of     *)
(* calls [sgn, mid, n, dz, jumps, at, rows, exposed]: for each cell (point *)
(* in time, component and path) the sign of dt, the midpoint, the number   *)
(* of events and the increment; the values of the jumps drawn, and the     *)
(* time their distribution was requested at; the exposed jump variates, as *)
(* rows [n, s] of n variates adding up to s.  With a unit that is not 0,   *)
(* all jumps have that value, and just their number drawn is recorded.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt,
        Json, CSV, IOUtils, TLC

VARIABLES i, l, verdict
vars == <<i, l, verdict>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
C == Traces[i].calls[l]
Timed == Traces[i].timed
Cells == 1..Len(C.n)
AbsV(v) == IF v < 0 THEN -v ELSE v

Sum(S) == MapThenSumSet(LAMBDA k : C.jumps[k], S)
\* jumps that may go to cell j: drawn at its time, interchangeable if equal
Pick(j, ids) ==
  LET own == IF Timed THEN {k \in ids : C.at[k] = C.mid[j]} ELSE ids
  IN IF Cardinality(own) < C.n[j] THEN {} ELSE
     {S \in kSubset(C.n[j], own) :
        /\ Sum(S) = C.sgn[j]*C.dz[j]
        /\ \A x \in S : \A y \in own \ S : C.jumps[x] = C.jumps[y] => x < y}
RECURSIVE Explained(_, _)
Explained(j, ids) ==
  IF j > Len(C.n) THEN TRUE
  ELSE IF C.n[j] = 0 THEN C.dz[j] = 0 /\ Explained(j + 1, ids)
  ELSE \E S \in Pick(j, ids) : Explained(j + 1, ids \ S)
\* exposed variates: one row for each cell with events
Consistent ==
  LET busy == {j \in Cells : C.n[j] > 0}
      Rows(n, s) == {k \in 1..Len(C.rows) : C.rows[k].n = n /\ C.rows[k].s = s}
  IN /\ Len(C.rows) = Cardinality(busy)
     /\ \A j \in busy : Cardinality(Rows(C.n[j], C.sgn[j]*C.dz[j])) =
           Cardinality({k \in busy : C.n[k] = C.n[j] /\
                          C.sgn[k]*C.dz[k] = C.sgn[j]*C.dz[j]})
Why ==
  IF ~(\A j \in Cells : C.sgn[j] = 0 => C.n[j] = 0 /\ C.dz[j] = 0)
    THEN "increments do not vanish with dt"
  ELSE IF \E j \in Cells : C.n[j] < 0 THEN "counts of the wrong sign"
  ELSE IF C.unit # 0
    THEN IF \E j \in Cells : C.dz[j] # C.sgn[j]*C.n[j]*C.unit
           THEN "increments are not sums of one jump per event"
         ELSE IF C.drawn # FoldLeft(LAMBDA a, b : a + b, 0, C.n)
           THEN "jumps drawn are not one per event"
         ELSE "ok"
  ELSE IF ~Explained(1, 1..Len(C.jumps))
    THEN "increments are not sums of one jump per event"
  ELSE IF C.exposed /\ ~Consistent
    THEN "exposed variates do not match the increments"
  ELSE "ok"

Init == i \in 1..Len(Traces) /\ l = 1 /\ verdict = "none"
Next ==
  /\ verdict = "none" /\ i' = i
  /\ IF l > Len(Traces[i].calls) THEN verdict' = "ok" /\ l' = l
     ELSE LET w == Why IN
          IF w = "ok" THEN l' = l + 1 /\ verdict' = verdict
          ELSE verdict' = w /\ l' = l
Spec == Init /\ [][Next]_vars
Export ==
  verdict # "none" =>
    CSVWrite("%1$s", <<ToJson([i |-> i, ok |-> verdict = "ok", at |-> l, why |-> verdict])>>,
             IOEnv.OUT)
=============================================================================
