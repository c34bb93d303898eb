---------------------------- MODULE AnalyticGen ----------------------------
EXTENDS Analytic, Json, CSV, IOUtils
HalfR == <<1, 2>>
Quart == <<1, 4>>
N(a) == <<a, 1>>
Factors == [x0 : {N(-1)}, theta : {N(0), N(3)}, k : {1, 2}, w : {N(1), HalfR}]
Pars(f) ==
  CASE f = "wiener" -> [x0 : {N(0), N(-1), <<3, 2>>}, mu : {N(0), HalfR, N(-2)}, s : {N(1), HalfR, N(3)}]
    [] f = "lognorm" -> [j : {0, -1, 1}, m : {0, 1, -1}, s : {1, 2}]
    [] f = "oruh" -> [x0 : {N(0), N(-1), <<3, 2>>}, theta : {N(0), HalfR, N(3)}, k : {1, 2}, w : {N(1), HalfR}]
    [] f = "hw2f" -> [f : Factors \X [x0 : {N(2)}, theta : {N(0), N(-1)}, k : {1, 3}, w : {N(1), N(2)}],
                      rho : {N(0), HalfR, N(-1)}]
    [] f = "cir" -> [x0 : {N(1), HalfR, N(2)}, theta : {N(1), HalfR, N(3)}, k : {1, 2}, z : {HalfR, N(1), Quart}]
    [] f = "heston" -> [j : {0, 1}, m : {0, 1}, s : {N(1), Quart}, y0 : {N(1), HalfR}, theta : {N(1), N(2)},
                        k : {1, 2}, z : {N(1), Quart}, c : {N(0), <<1, 8>>, <<-1, 4>>}]
    [] f = "mjd" -> [j : {0, 1}, m : {0, -1}, s : {N(1), HalfR}, l : {1, 2}, b : {HalfR, N(1)},
                     n : {0, 1, -1}, e : {N(1)}]
    [] f = "kou" -> [j : {0, 1}, m : {0, -1}, s : {N(1), HalfR}, l : {1, 2, 4}, b : {HalfR, N(1)},
                     a : {HalfR, <<1, 3>>}, pa : {<<1, 3>>, HalfR, <<2, 3>>, N(1)}, e : {N(1)}]
    [] f = "bs" -> [j : {0, -1, 1}, r : {0, 1}, q : {0, 1, -1}, s : {Zero, Quart, N(1)}]
\* what is specified of a jump follows from the other parameters
WithJumps(f) ==
  CASE f = "mjd" -> {[p EXCEPT !.e = Pow2(p.n)] : p \in {q \in Pars(f) : q.n >= 0 \/ q.l = 2}}
    [] f = "kou" -> {p \in {[q EXCEPT !.e = KouMean(q)] : q \in Pars(f)} :
                       Times(p.l, RSub(p.e, One))[2] = 1}
    [] OTHER -> Pars(f)
SomeFams == {"wiener", "lognorm", "oruh", "hw2f", "cir", "heston", "mjd", "kou", "bs"}
\* jump exponents of the characteristic function for some u
Us == <<N(1), N(-2), HalfR>>
Jumps == IF fam = "kou" THEN [i \in 1..Len(Us) |-> [u |-> Us[i], v |-> KouJump(par, Us[i])]] ELSE <<>>
Export == Len(hist) = MaxSteps + 1 =>
  CSVWrite("%1$s", <<ToJson([fam |-> fam, par |-> par, hist |-> hist, jumps |-> Jumps])>>, IOEnv.OUT)
=============================================================================
