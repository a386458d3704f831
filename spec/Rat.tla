------------------------------- MODULE Rat -------------------------------
(* exact fractions <<n, d>>; <<0, 0>> stands for what is not determined
   (no such number, or one too long to be told from others) *)
EXTENDS Integers, Sequences
Bad == <<0, 0>>
Lim == 20000
IsBad(a) == a[2] = 0
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Cut(a) == IF Abs(a[1]) > Lim \/ a[2] > Lim THEN Bad ELSE a
Red(n, d) == LET g == Gcd(Abs(n), Abs(d)) IN IF d = 0 THEN Bad ELSE Cut(<<(IF d < 0 THEN -n ELSE n) \div g, Abs(d) \div g>>)
I(n) == <<n, 1>>
Zero == I(0)
One == I(1)
Neg(a) == <<-a[1], a[2]>>
Add(a, b) == IF IsBad(a) \/ IsBad(b) THEN Bad ELSE Red(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF IsBad(a) \/ IsBad(b) THEN Bad ELSE Red(a[1] * b[1], a[2] * b[2])
Div(a, b) == IF IsBad(a) \/ IsBad(b) \/ b[1] = 0 THEN Bad ELSE Red(a[1] * b[2], a[2] * b[1])
Less(a, b) == a[1] * b[2] < b[1] * a[2]
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN One ELSE Mul(a, Pow(a, n - 1))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
(* complex numbers *)
CZero == <<Zero, Zero>>
CAdd(u, v) == <<Add(u[1], v[1]), Add(u[2], v[2])>>
CMul(u, v) == <<Sub(Mul(u[1], v[1]), Mul(u[2], v[2])), Add(Mul(u[1], v[2]), Mul(u[2], v[1]))>>
Scale(a, v) == <<Mul(a, v[1]), Mul(a, v[2])>>
CDivR(v, a) == <<Div(v[1], a), Div(v[2], a)>>
(* an expected value agrees with a reported one *)
Agree(x, g) == IsBad(x) \/ x = g
AgreeC(u, g) == Agree(u[1], g[1]) /\ Agree(u[2], g[2])
=============================================================================
