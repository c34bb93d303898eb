------------------------------ MODULE EulerSDE ------------------------------
(***************************************************************************)
(* Euler-Maruyama integration of a system of SDEs (integrator, SDE, SDEs). *)
(*                                                                         *)
(* Everything is an integer.  A configuration c has the Timeline fields,   *)
(* and                                                                     *)
(*   layout : [q, vshape, paths, addaxis]; q = 0 is a plain SDE            *)
(*   eqs    : one sequence of terms per equation; a term is                *)
(*            [id, c0, cx, ct, cp]: the coefficient of source id at time s *)
(*            is c0 + sum(cx[j]*x[j]) + ct*s + cp*par(s)                   *)
(*   srcs   : ids of the declared sources, in ascending order              *)
(*   par    : [kind, p0, p1, p2, jump]: the parameter at time s is         *)
(*            p0 + p1*s + p2*(cell number mod 3), with s replaced by 0 or 1, *)
(*            before or after the breakpoint jump - 1/2, unless jump = 99    *)
(*   x0     : [kind, base]                                                 *)
(*   log    : integration in logarithms (the state is then the base-2      *)
(*            logarithm of the process); initial values of 0 are then the  *)
(*            logarithm Zero, which no increment moves                     *)
(*   fault  : [kind, at]: the equation returns invalid coefficients at its *)
(*            at-th evaluation of the first run, which must be rejected    *)
(*   runs   : the timelines [tl, i0, steps] on which the same object is    *)
(*            run, one after the other; the Timeline fields of c are those *)
(*            of the current run                                           *)
(* The state is x[e][cell]; a cell is one value component of one path.     *)
(* A step has three actions: the coefficients are computed (Coefs), the    *)
(* sources are asked for their increments one by one (Draw), and the state *)
(* is updated (Update).                                                    *)
(***************************************************************************)
EXTENDS Timeline

VARIABLES cfg, phase, dirs, dir, todo, x, at, coefs, incs, nsrc,
          out, sdelog, srclog, hist

vars == <<cfg, phase, dirs, dir, todo, x, at, coefs, incs, nsrc,
          out, sdelog, srclog, hist>>

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s)*Prod(Tail(s))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

E(c) == IF c.layout.q = 0 THEN 1 ELSE c.layout.q
Cells(c) == Prod(c.layout.vshape)*c.layout.paths

When(c, s) == IF c.par.jump = 99 THEN s ELSE IF s >= c.par.jump THEN 1 ELSE 0
Par(c, s, k) == c.par.p0 + c.par.p1*When(c, s) + c.par.p2*(k % 3)

\* deterministic stand-ins for the stochastic increments, different for each
\* source, time, step, equation and cell
SrcA(id) == CASE id = "da" -> 1 [] id = "dj" -> 2 [] id = "dn" -> 3
              [] id = "dw" -> 4 [] id = "zz" -> 6
              [] id = "dZ" -> 5 [] id = "da10" -> 7 [] id = "da9" -> 8
              [] OTHER -> 0
SrcB(id) == CASE id = "da" -> 3 [] id = "dj" -> 1 [] id = "dn" -> 2
              [] id = "dw" -> 1 [] id = "zz" -> 2
              [] id = "dZ" -> 2 [] id = "da10" -> 3 [] id = "da9" -> 1
              [] OTHER -> 0
Inc(id, s, ds, e, k) ==
  IF id = "dt" THEN ds
  ELSE ((SrcA(id)*s + SrcB(id)*ds + 3*e + 2*k) % 5) - 2

\* a value that is not finite, in case of an infinite coefficient
Bad == 3000000
IsBad(v) == v = Bad
\* stands for minus infinity
Zero == -1000000
X0(c, e, k) ==
  CASE c.x0.kind = "zeros"  -> IF (e + k) % 2 = 0 THEN Zero ELSE c.x0.base + e
    [] c.x0.kind = "scalar" -> c.x0.base
    [] c.x0.kind = "pereq"  -> c.x0.base + e
    [] c.x0.kind = "full"   -> c.x0.base + e + ((2*k) % 3)
    [] c.x0.kind = "bytime" -> c.x0.base + e + ((2*k) % 3) + Start(c)

Coef(c, term, s, xx, k) ==
  \* infinite in some of the cells only
  IF (IsBad(term.c0) /\ k % 2 = 1) \/ \E j \in 1..E(c) : term.cx[j] # 0 /\ IsBad(xx[j][k])
  THEN Bad
  ELSE (IF IsBad(term.c0) THEN 1 ELSE term.c0) + term.ct*s + term.cp*Par(c, s, k)
       + SumSeq([j \in 1..E(c) |-> IF term.cx[j] = 0 THEN 0 ELSE term.cx[j]*xx[j][k]])

InitCfg(c) ==
  /\ cfg = c /\ phase = "idle" /\ dirs = Directions(c) /\ dir = "-"
  /\ todo = <<>> /\ x = <<>> /\ at = Start(c) /\ coefs = <<>> /\ incs = <<>>
  /\ nsrc = 0 /\ out = [i \in 1..Len(c.tl) |-> <<>>]
  /\ sdelog = <<>> /\ srclog = <<>> /\ hist = <<>>

IsOutput(t) == t \in ToSet(cfg.tl)
Stored(o, t, xx) == IF IsOutput(t) THEN [o EXCEPT ![Idx(cfg, t)] = xx] ELSE o

Begin ==
  /\ phase = "idle" /\ dirs # <<>>
  /\ dir' = Head(dirs) /\ dirs' = Tail(dirs)
  /\ todo' = Tail(Route(cfg, Head(dirs)))
  /\ at' = Start(cfg)
  /\ x' = [e \in 1..E(cfg) |-> [k \in 1..Cells(cfg) |-> X0(cfg, e, k)]]
  /\ out' = Stored(out, Start(cfg), x')
  /\ phase' = IF todo' = <<>> THEN "idle" ELSE "coefs"
  /\ UNCHANGED <<cfg, coefs, incs, nsrc, sdelog, srclog, hist>>

\* coefficients: everything is taken at the start of the step
Faulty == cfg.fault.kind # "none" /\ cfg.fault.at = Len(sdelog) + 1 /\ hist = <<>>

\* the outcome of the current run, and the preparation of the next
Finish(ok) ==
  /\ hist' = Append(hist, [tl |-> cfg.tl, i0 |-> cfg.i0, steps |-> cfg.steps, ok |-> ok,
                           out |-> out, sde |-> sdelog, src |-> srclog])
  /\ IF Len(hist) + 1 = Len(cfg.runs)
     THEN /\ phase' = "done"
          /\ UNCHANGED <<cfg, dirs, dir, todo, x, at, coefs, incs, nsrc, out, sdelog, srclog>>
     ELSE LET r == cfg.runs[Len(hist) + 2]
          IN /\ cfg' = [cfg EXCEPT !.tl = r.tl, !.i0 = r.i0, !.steps = r.steps]
             /\ phase' = "idle" /\ dirs' = Directions(cfg') /\ dir' = "-"
             /\ todo' = <<>> /\ x' = <<>> /\ at' = Start(cfg') /\ coefs' = <<>>
             /\ incs' = <<>> /\ nsrc' = 0
             /\ out' = [i \in 1..Len(cfg'.tl) |-> <<>>]
             /\ sdelog' = <<>> /\ srclog' = <<>>

Reject == phase = "coefs" /\ Faulty /\ Finish(FALSE)

Coefs ==
  /\ phase = "coefs" /\ ~Faulty
  /\ coefs' = [e \in 1..E(cfg) |-> [j \in 1..Len(cfg.eqs[e]) |->
                 [id |-> cfg.eqs[e][j].id,
                  v |-> [k \in 1..Cells(cfg) |-> Coef(cfg, cfg.eqs[e][j], at, x, k)]]]]
  /\ sdelog' = Append(sdelog, [s |-> at, x |-> x, p |-> [k \in 1..Cells(cfg) |-> Par(cfg, at, k)]])
  /\ nsrc' = 0 /\ incs' = <<>>
  /\ phase' = "draw"
  /\ UNCHANGED <<cfg, dirs, dir, todo, x, at, out, srclog, hist>>

Ds == Head(todo) - at

\* each declared source is asked once, in ascending order of id
Draw ==
  /\ phase = "draw" /\ nsrc < Len(cfg.srcs)
  /\ LET id == cfg.srcs[nsrc + 1]
     IN /\ incs' = Append(incs, [id |-> id,
                    v |-> [e \in 1..E(cfg) |-> [k \in 1..Cells(cfg) |->
                             Inc(id, at, Ds, e, k)]]])
        /\ srclog' = IF id = "dt" THEN srclog
                     ELSE Append(srclog, [id |-> id, s |-> at, ds |-> Ds])
  /\ nsrc' = nsrc + 1
  /\ UNCHANGED <<cfg, phase, dirs, dir, todo, x, at, coefs, out, sdelog, hist>>

IncOf(id) == (CHOOSE j \in 1..Len(incs) : incs[j].id = id)

Update ==
  /\ phase = "draw" /\ nsrc = Len(cfg.srcs)
  /\ x' = [e \in 1..E(cfg) |-> [k \in 1..Cells(cfg) |->
             IF x[e][k] = Zero THEN Zero
             ELSE IF IsBad(x[e][k]) \/ \E j \in 1..Len(coefs[e]) : IsBad(coefs[e][j].v[k])
             THEN Bad
             ELSE x[e][k] + SumSeq([j \in 1..Len(coefs[e]) |->
                  coefs[e][j].v[k]*incs[IncOf(coefs[e][j].id)].v[e][k]])]]
  /\ at' = Head(todo) /\ todo' = Tail(todo)
  /\ out' = Stored(out, at', x')
  /\ phase' = IF todo' = <<>> THEN "idle" ELSE "coefs"
  /\ UNCHANGED <<cfg, dirs, dir, coefs, incs, nsrc, sdelog, srclog, hist>>

Exit ==
  phase = "idle" /\ dirs = <<>> /\ Finish(TRUE)

Next == Begin \/ Reject \/ Coefs \/ Draw \/ Update \/ Exit

(***************************************************************************)
(* Properties of the design, on each completed run h                       *)
(***************************************************************************)
CfgOf(h) == [cfg EXCEPT !.tl = h.tl, !.i0 = h.i0, !.steps = h.steps]
Steps(c) == SumSeq([j \in 1..Len(Directions(c)) |-> Len(Route(c, Directions(c)[j])) - 1])

\* every source but dt is recorded once per step, in ascending order
Recorded == SelectSeq(cfg.srcs, LAMBDA id : id # "dt")
SourcesOnce(h) ==
  /\ \A i \in 1..Len(h.src) :
        h.src[i].id = Recorded[((i - 1) % Len(Recorded)) + 1]
  /\ h.ok => Len(h.src) = Len(Recorded)*Steps(CfgOf(h))

\* one evaluation of the equation per step
OneEvaluation(h) == h.ok => Len(h.sde) = Steps(CfgOf(h))

StartsAtX0(h) ==
  h.ok => \A e \in 1..E(cfg) : \A k \in 1..Cells(cfg) :
             h.out[h.i0][e][k] = X0(CfgOf(h), e, k)

\* an equation with no terms never moves
NoTermNoMove(h) ==
  h.ok => \A e \in 1..E(cfg) : cfg.eqs[e] = <<>> =>
     \A i \in 1..Len(h.tl) : h.out[i][e] = h.out[h.i0][e]

\* logarithmic integration never leaves 0, nor gets there
ZeroIsAbsorbing(h) ==
  h.ok => \A e \in 1..E(cfg) : \A k \in 1..Cells(cfg) : \A i \in 1..Len(h.tl) :
     (h.out[i][e][k] = Zero) = (h.out[h.i0][e][k] = Zero)

\* what is not finite stays in its cell, and in the equations that use it
Finite(h) ==
  h.ok => \A e \in 1..E(cfg) : \A k \in 1..Cells(cfg) : \A i \in 1..Len(h.tl) :
     IsBad(h.out[i][e][k]) =>
        /\ k % 2 = 1
        /\ \E f \in 1..E(cfg) : \E j \in 1..Len(cfg.eqs[f]) : IsBad(cfg.eqs[f][j].c0)
        /\ \E j \in 1..Len(cfg.eqs[e]) :
             IsBad(cfg.eqs[e][j].c0) \/ cfg.eqs[e][j].cx # <<0, 0, 0>>

AllOut(h) == h.ok => \A i \in 1..Len(h.tl) : h.out[i] # <<>>

\* equal runs give equal results, whatever was run in between
Repeatable ==
  \A i, j \in 1..Len(hist) :
     (hist[i].ok /\ hist[j].ok /\ CfgOf(hist[i]) = CfgOf(hist[j])) => hist[i] = hist[j]

OnlyFaultsFail == \A i \in 1..Len(hist) :
   ~hist[i].ok => i = 1 /\ cfg.fault.kind # "none"

Inv == /\ \A i \in 1..Len(hist) :
            LET h == hist[i] IN /\ SourcesOnce(h) /\ OneEvaluation(h) /\ StartsAtX0(h)
                                /\ NoTermNoMove(h) /\ AllOut(h) /\ Finite(h) /\ ZeroIsAbsorbing(h)
       /\ Repeatable /\ OnlyFaultsFail
=============================================================================
