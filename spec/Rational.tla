-------------------------------- MODULE Rational --------------------------------
(* rationals <<p, q>> with q > 0 in lowest terms *)
EXTENDS Integers
RECURSIVE Gcd(_, _)
Abs(x) == IF x < 0 THEN -x ELSE x
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Q(p, q) == IF p = 0 THEN <<0, 1>> ELSE LET g == Gcd(Abs(p), Abs(q)) t == IF q < 0 THEN -1 ELSE 1 IN <<t * (p \div g), t * (q \div g)>>
QI(n) == <<n, 1>>
QSub(x, y) == Q((x[1] * y[2]) - (y[1] * x[2]), x[2] * y[2])
QMul(x, y) == Q(x[1] * y[1], x[2] * y[2])
QDiv(x, y) == Q(x[1] * y[2], x[2] * y[1])
QGt(x, y) == Abs(x[1]) * y[2] > Abs(y[1]) * x[2]    \* by magnitude
Z == QI(0)
QAdd(x, y) == Q((x[1] * y[2]) + (y[1] * x[2]), x[2] * y[2])
QPos(x) == x[1] > 0
=============================================================================
