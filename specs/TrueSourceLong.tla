--------------------------- MODULE TrueSourceLong ---------------------------
(* Long histories: hundreds of known times, queried in blocks. *)
EXTENDS TrueSourceGen

\* n ticks spread over -range..range
Spread(n, a, range) == [i \in 1..n |-> T(((a + 37*i*i + 101*i) % (2*range + 1)) - range, 0)]
BlocksUp == [i \in 1..45 |-> T(4*i, 0)]
BlocksDown == [i \in 1..45 |-> T(-3*i, 0)]
Blocks == {QV(Spread(60, a, 300)) : a \in {1, 2, 3, 4}} \cup
          {QM(Spread(50, 7, 120)), QV(BlocksUp), QV(BlocksDown)} \cup
          {Q1(T(k, 0)) : k \in {-250, 17, 299}}
BlockIncs == {IV(Spread(30, 5, 200), [i \in 1..30 |-> (i % 7) - 3]),
              IV(BlocksUp, [i \in 1..45 |-> 2])}
=============================================================================
