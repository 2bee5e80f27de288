-------------------------------- MODULE Rat --------------------------------
(* Exact rationals <<num, den>>, reduced, den > 0.  TLC integers have 32   *)
(* bits and TLC reports overflow, so results are exact or the run fails.   *)
EXTENDS Integers, Sequences

Abs(a) == IF a < 0 THEN -a ELSE a

\* Recursive functions throughout, no RECURSIVE operators: TLC evaluates constant
\* definitions only once, but not if they depend on a RECURSIVE operator.
GcdFun[a \in Nat, b \in Nat] == IF b = 0 THEN a ELSE GcdFun[b, a % b]
Gcd(a, b) == GcdFun[a, b]

R(n, d) == LET g == Gcd(Abs(n), Abs(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN <<(s * n) \div g, (s * d) \div g>>

Zero == <<0, 1>>
One  == <<1, 1>>
Q(n) == <<n, 1>>

Add(a, b) == LET g == Gcd(a[2], b[2])
             IN R(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
Neg(a)    == <<-a[1], a[2]>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == LET g1 == Gcd(Abs(a[1]), b[2])
                 g2 == Gcd(Abs(b[1]), a[2])
             IN <<(a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1)>>
Inv(a)    == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
Div(a, b) == Mul(a, Inv(b))
IsZero(a) == a[1] = 0
Lt(a, b)  == Sub(a, b)[1] < 0
Le(a, b)  == Sub(a, b)[1] <= 0
RAbs(a)   == <<Abs(a[1]), a[2]>>
RMax(a, b) == IF Lt(a, b) THEN b ELSE a

\* a/b <= c/d for non-negative values by comparing continued fractions: no overflow
LeFun[a \in Nat, b \in Nat, c \in Nat, d \in Nat] ==
  IF a \div b # c \div d THEN a \div b < c \div d
  ELSE IF a % b = 0 THEN TRUE
  ELSE IF c % d = 0 THEN FALSE
  ELSE LeFun[d, c % d, b, a % b]
LePos(x, y) == LeFun[x[1], x[2], y[1], y[2]]

RPow(a, n)  == LET F[k \in Nat] == IF k = 0 THEN One ELSE Mul(a, F[k - 1]) IN F[n]
RSumSeq(s)  == LET F[k \in Nat] == IF k = 0 THEN Zero ELSE Add(s[k], F[k - 1]) IN F[Len(s)]
=============================================================================
