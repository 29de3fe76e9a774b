-------------------------------- MODULE Rat ---------------------------------
(* rational numbers <<n, d>>, d > 0, in lowest terms *)
EXTENDS Integers, Sequences
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE Gcd(b, a % b)
Q(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == Gcd(IF n < 0 THEN -n ELSE n, IF d < 0 THEN -d ELSE d) s == IF d < 0 THEN -1 ELSE 1 IN <<(s * n) \div g, (s * d) \div g>>
I(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
Add(a, b) == LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
Neg(a) == <<-a[1], a[2]>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == LET x == Q(a[1], b[2]) y == Q(b[1], a[2]) IN IF a[1] = 0 \/ b[1] = 0 THEN Zero ELSE <<x[1] * y[1], x[2] * y[2]>>
Inv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
Div(a, b) == Mul(a, Inv(b))
Less(a, b) == Sub(a, b)[1] < 0
Leq(a, b) == Sub(a, b)[1] <= 0
MinQ(a, b) == IF Leq(a, b) THEN a ELSE b
MaxQ(a, b) == IF Leq(a, b) THEN b ELSE a
RECURSIVE SumQ(_, _)
SumQ(s, k) == IF k = 0 THEN Zero ELSE Add(s[k], SumQ(s, k - 1))
Sum(s) == SumQ(s, Len(s))
RECURSIVE MinSeqQ(_, _)
MinSeqQ(s, k) == IF k = 1 THEN s[1] ELSE MinQ(s[k], MinSeqQ(s, k - 1))
RECURSIVE MaxSeqQ(_, _)
MaxSeqQ(s, k) == IF k = 1 THEN s[1] ELSE MaxQ(s[k], MaxSeqQ(s, k - 1))
Lowest(s) == MinSeqQ(s, Len(s))
Highest(s) == MaxSeqQ(s, Len(s))
=============================================================================
