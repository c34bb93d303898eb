-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic: <<n, d>> in lowest terms, d > 0.              *)
EXTENDS Integers
LOCAL AbsI(v) == IF v < 0 THEN -v ELSE v
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) ==
  LET g == Gcd(AbsI(n), AbsI(d))
      s == IF d < 0 THEN -1 ELSE 1
  IN IF n = 0 THEN <<0, 1>> ELSE <<s*(n \div g), s*(d \div g)>>
R(n) == <<n, 1>>
\* (cross-reducing first, to stay within 32 bits)
RMul(a, b) ==
  LET g == Gcd(AbsI(a[1]), b[2])  h == Gcd(AbsI(b[1]), a[2])
  IN IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
     ELSE <<(a[1] \div g)*(b[1] \div h), (a[2] \div h)*(b[2] \div g)>>
RAdd(a, b) ==
  LET g == Gcd(a[2], b[2])
  IN Norm(a[1]*(b[2] \div g) + b[1]*(a[2] \div g), a[2]*(b[2] \div g))
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLeq(a, b) == a[1]*b[2] <= b[1]*a[2]
RLt(a, b) == a[1]*b[2] < b[1]*a[2]
=============================================================================
