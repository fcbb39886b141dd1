------------------------------ MODULE Rational ------------------------------
(* Exact rationals <<n, d>>, d > 0, reduced.                                 *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Rat(n, d) == IF n = 0 THEN <<0, 1>>
             ELSE LET g == Gcd(RAbs(n), d) IN <<n \div g, d \div g>>
RZero == <<0, 1>>
ROne == <<1, 1>>
RInt(n) == <<n, 1>>

RAdd(a, b) == IF a[2] = b[2] THEN Rat(a[1] + b[1], a[2])
              ELSE LET g == Gcd(a[2], b[2])
                       l == (a[2] \div g) * b[2]
                   IN Rat(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), l)
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN RZero
              ELSE LET g == Gcd(RAbs(a[1]), b[2])
                       h == Gcd(RAbs(b[1]), a[2])
                   IN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RInv(a) == IF a[1] > 0 THEN <<a[2], a[1]>> ELSE <<-a[2], -a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == RSub(a, b)[1] < 0
RLe(a, b) == RSub(a, b)[1] <= 0

\* Sum of a sequence, and of f over the indices 1..n.
RECURSIVE RSumTo(_, _)
RSumTo(s, n) == IF n = 0 THEN RZero ELSE RAdd(RSumTo(s, n - 1), s[n])
RSum(s) == RSumTo(s, Len(s))
=============================================================================
