-------------------------- MODULE SourceProtocolGen --------------------------
EXTENDS SourceProtocol, Json, CSV, IOUtils, TLC

CONSTANTS Shapes, Timelines

\* users: kind, values shape, working shape
Users == {[user |-> "sde", vshape |-> <<>>, wshape |-> <<>>],
          [user |-> "sde", vshape |-> <<2>>, wshape |-> <<2>>],
          [user |-> "sde", vshape |-> <<3, 2>>, wshape |-> <<3, 2>>],
          [user |-> "sdes", vshape |-> <<>>, wshape |-> <<2>>],
          [user |-> "sdes", vshape |-> <<2>>, wshape |-> <<4>>],
          [user |-> "sdes_axis", vshape |-> <<2>>, wshape |-> <<2, 2>>],
          [user |-> "hw", vshape |-> <<2>>, wshape |-> <<2, 3>>]}
UserSlots == {[u |-> u, slot |-> s] : u \in Users, s \in {"dw", "dn", "dj"}}
Compound == {[u |-> [user |-> "cpoisson", vshape |-> v, wshape |-> v], slot |-> "dn_of_dj"]
               : v \in {<<>>, <<2>>}}
Usable(us) == us.u.user = "hw" => us.slot = "dw"

ShapesQuick == {<<>>, <<1>>, <<2>>, <<3>>, <<4>>, <<2, 2>>, <<1, 2>>, <<3, 2>>, <<2, 3>>, <<2, 1>>, <<1, 3, 2>>, <<1, 1>>}
ShapesMore == ShapesQuick \cup {<<a, b>> : a, b \in 1..3} \cup {<<5>>, <<1, 1, 1>>, <<0>>}

Cands == {[kind |-> k, paths |-> p, vshape |-> v] :
            k \in {"object", "process", "memory", "nocall", "nopaths", "novshape"},
            p \in {1, 2, 3}, v \in Shapes}
         \cup {[kind |-> k, paths |-> 2, vshape |-> <<>>] : k \in {"none", "class"}}

TlQuick == {<<0, 1, 3, 4>>}
TlMore == {<<0, 1, 3, 4>>, <<-1, 2>>, <<3>>, <<1, 2, 4>>}

Init == \E us \in {z \in UserSlots \cup Compound : Usable(z)} : \E cd \in Cands, t \in Timelines :
          Init0([user |-> us.u.user, vshape |-> us.u.vshape, wshape |-> us.u.wshape,
                 slot |-> us.slot, paths |-> 2, cand |-> cd, tl |-> t])
Spec == Init /\ [][Next]_vars

Export ==
  phase = "done" =>
    CSVWrite("%1$s", <<ToJson([cfg |-> cfg, verdict |-> verdict, out |-> out])>>, IOEnv.OUT)
=============================================================================
