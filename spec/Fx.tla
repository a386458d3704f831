-------------------------------- MODULE Fx --------------------------------
(* numbers in units of one millionth *)
EXTENDS Integers, Sequences
U == 1000000
Abs(n) == IF n < 0 THEN -n ELSE n
M(a, b) == LET a1 == a \div 1000  a0 == a % 1000  b1 == b \div 1000  b0 == b % 1000 IN a1 * b1 + (a1 * b0 + a0 * b1 + (a0 * b0) \div 1000 + 500) \div 1000
By(a, n) == (a + n \div 2) \div n
(* the inverse of a number between 1/2 and 2, by Newton's method *)
RECURSIVE Inv0(_, _, _)
Inv0(a, x, n) == IF n = 0 THEN x ELSE Inv0(a, x + M(x, U - M(a, x)), n - 1)
Inv(a) == IF a > 0 THEN Inv0(a, IF a > U THEN 700000 ELSE 1400000, 6) ELSE -Inv0(-a, IF -a > U THEN 700000 ELSE 1400000, 6)
Quot(a, b) == M(a, Inv(b))
Z6 == <<0, 0, 0, 0, 0, 0>>
Plus(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3], u[4] + v[4], u[5] + v[5], u[6] + v[6]>>
Minus(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3], u[4] - v[4], u[5] - v[5], u[6] - v[6]>>
ByV(u, n) == <<By(u[1], n), By(u[2], n), By(u[3], n), By(u[4], n), By(u[5], n), By(u[6], n)>>
(* complex numbers *)
CM(u, v) == <<M(u[1], v[1]) - M(u[2], v[2]), M(u[1], v[2]) + M(u[2], v[1])>>
CP(u, v) == <<u[1] + v[1], u[2] + v[2]>>
=============================================================================
