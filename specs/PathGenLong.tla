---------------------------- MODULE PathGenLong ----------------------------
(***************************************************************************)
(* Path generation along long timelines, with many steps, of which some    *)
(* are shortened (one in Every, if it may be halved).                      *)
(***************************************************************************)
EXTENDS PathGen, Json, CSV, IOUtils, TLC

CONSTANTS Depths, Everies
VARIABLE every

None == [kind |-> "none", n |-> 0, times |-> <<>>]
Count(m) == [kind |-> "count", n |-> m, times |-> <<>>]
Times(s) == [kind |-> "times", n |-> 0, times |-> s]
Tm(tl, i0, st) == [tl |-> tl, i0 |-> i0, steps |-> st]
Cases ==
  {Tm([i \in 1..500 |-> 4*i], 1, None), Tm([i \in 1..500 |-> 4*i], 333, None),
   Tm(<<0, 4804>>, 1, Count(1202)), Tm([i \in 1..90 |-> 20*i], 60, Count(446)),
   Tm([i \in 1..200 |-> 8*i], 200, Times([i \in 1..100 |-> 16*i - 4])),
   Tm(<<0, 8, 2000>>, 1, Times([i \in 1..600 |-> 4*((7*i) % 601)]))}
Init == \E c \in Cases, K \in Depths, n \in Everies :
  /\ every = n
  /\ InitCfg([tl |-> c.tl, i0 |-> c.i0, steps |-> c.steps, K |-> K])

Halved == LastT + (Target - LastT) \div 2
Now == /\ phase = "run" /\ pos <= Len(outs) /\ every > 0 /\ Len(log) % every = 0
       /\ 2*(Halved - LastT) = Target - LastT
Half == Now /\ AdvanceTo(Halved)
        /\ adapts' = adapts + 1
LNext == /\ \/ Begin \/ StoreInitial \/ (~Now /\ Advance) \/ Half \/ Store \/ End \/ Exit
         /\ UNCHANGED every
LSpec == Init /\ [][LNext]_<<vars, every>>

\* the times reached, as they come
Reached(d) == LET nexts == SelectSeq(log, LAMBDA r : r.e = "next")
                  all == [i \in 1..Len(nexts) |-> nexts[i].to]
              IN SelectSeq(all, LAMBDA t : IF d = "f" THEN t > Start(cfg) ELSE t < Start(cfg))
AtTheEnd == phase = "done" =>
  /\ \A d \in ToSet(Directions(cfg)) :
        StrictlyMonotone(Reached(d), d) /\
        {t \in Required(cfg) : IF d = "f" THEN t > Start(cfg) ELSE t < Start(cfg)}
          \subseteq ToSet(Reached(d)) \cup ToSet(SubSeq(Route(cfg, d), 1, cfg.K - 1))
  /\ AllStored /\ (every = 0 => adapts = 0)

LExport == phase = "done" =>
  CSVWrite("%1$s", <<ToJson([cfg |-> cfg, out |-> out, log |-> log, phase |-> phase])>>, IOEnv.OUT)
=============================================================================
