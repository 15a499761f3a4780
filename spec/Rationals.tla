----------------------------- MODULE Rationals -----------------------------
(* Exact rational numbers as normalised pairs.                               *)
EXTENDS Integers
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Q(p, q) == LET s == IF q < 0 THEN -1 ELSE 1
               g == Gcd(Abs(p), Abs(q)) IN <<(s * p) \div g, (s * q) \div g>>
QI(k) == <<k, 1>>
QAdd(x, y) == Q(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
QNeg(x) == <<-x[1], x[2]>>
QSub(x, y) == QAdd(x, QNeg(y))
QMul(x, y) == Q(x[1] * y[1], x[2] * y[2])
QDiv(x, y) == Q(x[1] * y[2], x[2] * y[1])
\* Numbers that got too large to compute with are marked, and whoever meets one is marked too.
Marked == <<40000, 1>>
Good(q) == q[2] < 32768 /\ q[1] < 32768 /\ q[1] > -32768
SAdd(x, z) == IF Good(x) /\ Good(z) THEN QAdd(x, z) ELSE Marked
SMul(x, z) == IF Good(x) /\ Good(z) THEN QMul(x, z) ELSE Marked
SDiv(x, z) == IF Good(x) /\ Good(z) /\ z[1] # 0 THEN QDiv(x, z) ELSE Marked
SNeg(x) == IF Good(x) THEN QNeg(x) ELSE Marked
QLess(p, q) == p[1] * q[2] < q[1] * p[2]
=============================================================================
