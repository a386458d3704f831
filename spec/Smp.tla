-------------------------------- MODULE Smp --------------------------------
(* bunches of macroparticles (B05): slices [q |-> charge, m |-> means (6), c |-> second moments of x, xp, y, yp (lower triangle)] *)
EXTENDS Rat, FiniteSets
Sign(a) == IF a[1] < 0 THEN -1 ELSE IF a[1] = 0 THEN 0 ELSE 1
New(P0, Q) == [P0 |-> P0, T |-> Zero, sg |-> Sign(Q), s |-> <<>>]
RECURSIVE Qtot(_, _), Wsum(_, _, _), Wsum2(_, _, _, _)
Qtot(s, k) == IF k > Len(s) THEN Zero ELSE Add(s[k].q, Qtot(s, k + 1))
Wsum(s, i, k) == IF k > Len(s) THEN Zero ELSE Add(Mul(s[k].q, s[k].m[i]), Wsum(s, i, k + 1))
Own(p, i, j) == IF i > 4 \/ j > 4 THEN Zero ELSE IF i >= j THEN p.c[i][j] ELSE p.c[j][i]
Wsum2(s, i, j, k) == IF k > Len(s) THEN Zero ELSE Add(Mul(s[k].q, Add(Mul(s[k].m[i], s[k].m[j]), Own(s[k], i, j))), Wsum2(s, i, j, k + 1))
(* the moments of the mixture of the slices *)
Mean(s, i) == Div(Wsum(s, i, 1), Qtot(s, 1))
Cov(s, i, j) == Sub(Div(Wsum2(s, i, j, 1), Qtot(s, 1)), Mul(Mean(s, i), Mean(s, j)))
RECURSIVE Map(_, _, _, _)
Map(s, i, ac, k) == IF k > Len(s) THEN <<>> ELSE <<[s[k] EXCEPT !.m[i] = Add(Mul(ac[1], @), ac[2])]>> \o Map(s, i, ac, k + 1)
AdjustP(b) == LET d == Mean(b.s, 6) IN [b EXCEPT !.P0 = Mul(Add(One, d), @), !.s = Map(@, 6, <<Div(One, Add(One, d)), Neg(Div(d, Add(One, d)))>>, 1)]
AdjustT(b) == LET m == Mean(b.s, 5) IN [b EXCEPT !.T = Sub(@, m), !.s = Map(@, 5, <<One, Neg(m)>>, 1)]
RECURSIVE Shift(_, _, _)
Shift(s, v, i) == IF i > 6 THEN s ELSE Shift(Map(s, i, <<One, v[i]>>, 1), v, i + 1)
(* frame moved by x, y and turned about z: new coordinate i is a combination of two old ones *)
Turn(p, x, y, u) ==
  LET c == u[1]  s == u[2]
      f == <<<<<<1, c>>, <<3, s>>>>, <<<<2, c>>, <<4, s>>>>, <<<<1, Neg(s)>>, <<3, c>>>>, <<<<2, Neg(s)>>, <<4, c>>>>>>
      m0 == <<Sub(p.m[1], x), p.m[2], Sub(p.m[3], y), p.m[4]>>
      M(i) == Add(Mul(f[i][1][2], m0[f[i][1][1]]), Mul(f[i][2][2], m0[f[i][2][1]]))
      S(i, j) == Add(Add(Mul(Mul(f[i][1][2], f[j][1][2]), Own(p, f[i][1][1], f[j][1][1])), Mul(Mul(f[i][1][2], f[j][2][2]), Own(p, f[i][1][1], f[j][2][1]))),
                     Add(Mul(Mul(f[i][2][2], f[j][1][2]), Own(p, f[i][2][1], f[j][1][1])), Mul(Mul(f[i][2][2], f[j][2][2]), Own(p, f[i][2][1], f[j][2][1])))) IN
  [q |-> p.q, m |-> <<M(1), M(2), M(3), M(4), p.m[5], p.m[6]>>, c |-> <<<<S(1, 1)>>, <<S(2, 1), S(2, 2)>>, <<S(3, 1), S(3, 2), S(3, 3)>>, <<S(4, 1), S(4, 2), S(4, 3), S(4, 4)>>>>]
RECURSIVE Turned(_, _, _, _, _)
Turned(s, x, y, u, k) == IF k > Len(s) THEN <<>> ELSE <<Turn(s[k], x, y, u)>> \o Turned(s, x, y, u, k + 1)
(* the same ones in another order (what is not determined agrees with anything) *)
Fits(p, g) == Agree(p.q, g.q) /\ (\A i \in 1..6 : Agree(p.m[i], g.m[i])) /\ \A i \in 1..4 : \A j \in 1..i : Agree(p.c[i][j], g.c[i][j])
SameSlices(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Cardinality({j \in 1..Len(b) : Fits(a[k], b[j])}) >= Cardinality({j \in 1..Len(a) : a[j] = a[k]})
Ascending(s) == \A k \in 1..Len(s) - 1 : ~Less(s[k + 1].m[5], s[k].m[5])
=============================================================================
