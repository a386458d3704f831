------------------------------- MODULE Bunch -------------------------------
(* bunches of particles (B01) and their slices (B04).
   b: [P0, T (reference), q (per particle), sg, p |-> particles [v |-> <<x, xp, y, yp, ct, dp>>, id]] *)
EXTENDS Rat, FiniteSets
Sign(a) == IF a[1] < 0 THEN -1 ELSE IF a[1] = 0 THEN 0 ELSE 1
New(P0, q, ps) == [P0 |-> P0, T |-> Zero, q |-> q, sg |-> Sign(q), p |-> ps]
FromArray(P0, Q, ps) == [New(P0, Div(Q, I(Len(ps))), ps) EXCEPT !.sg = Sign(Q)]
Charge(b) == Mul(b.q, I(Len(b.p)))
RECURSIVE Sum1(_, _, _), Sum2(_, _, _, _, _, _), Map(_, _, _, _)
Sum1(ps, i, k) == IF k > Len(ps) THEN Zero ELSE Add(ps[k].v[i], Sum1(ps, i, k + 1))
Mean(ps, i) == IF ps = <<>> THEN Zero ELSE Div(Sum1(ps, i, 1), I(Len(ps)))
Sum2(ps, i, j, mi, mj, k) == IF k > Len(ps) THEN Zero ELSE Add(Mul(Sub(ps[k].v[i], mi), Sub(ps[k].v[j], mj)), Sum2(ps, i, j, mi, mj, k + 1))
Cov(ps, i, j) == IF ps = <<>> THEN Zero ELSE Div(Sum2(ps, i, j, Mean(ps, i), Mean(ps, j), 1), I(Len(ps)))
(* a change of one coordinate of the particles from the k-th on: times a, plus c *)
Lin(p, i, a, c) == [p EXCEPT !.v[i] = Add(Mul(a, @), c)]
Map(ps, i, ac, k) == IF k > Len(ps) THEN <<>> ELSE <<Lin(ps[k], i, ac[1], ac[2])>> \o Map(ps, i, ac, k + 1)
(* the reference moves, momenta P0 (1 + dp) and arrival times T - ct stay *)
AdjustP(b, d) == [b EXCEPT !.P0 = Mul(Add(One, d), @), !.p = Map(@, 6, <<Div(One, Add(One, d)), Neg(Div(d, Add(One, d)))>>, 1)]
AdjustT(b) == LET m == Mean(b.p, 5) IN [b EXCEPT !.T = Sub(@, m), !.p = Map(@, 5, <<One, Neg(m)>>, 1)]
(* all but the first move by the same amount, so that the first is the centroid *)
RECURSIVE Moved(_, _, _)
Moved(ps, s, i) == IF i > 6 THEN ps ELSE Moved(<<ps[1]>> \o Map(ps, i, <<One, Neg(s[i])>>, 2), s, i + 1)
Centred(b) == LET n == Len(b.p) IN
  IF n < 2 THEN b ELSE LET f == Div(I(n), I(n - 1)) IN [b EXCEPT !.p = Moved(@, [i \in 1..6 |-> Mul(f, Sub(Mean(b.p, i), b.p[1].v[i]))], 1)]
Without(ps, i) == SubSeq(ps, 1, i - 1) \o SubSeq(ps, i + 1, Len(ps))
(* what sorting may give: the same particles, ascending in ct *)
Count(ps, p) == Cardinality({k \in 1..Len(ps) : ps[k] = p})
SameParticles(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Count(a, a[k]) = Count(b, a[k])
Ascending(ps) == \A k \in 1..Len(ps) - 1 : ~Less(ps[k + 1].v[5], ps[k].v[5])
(* slices: nbins equal ones from z0 to z1 *)
In(x, z0, z1) == ~Less(x, z0) /\ Less(x, z1)
RECURSIVE Keep(_, _, _, _), Counts(_, _, _, _, _, _), Ends(_, _, _)
Keep(ps, z0, z1, k) == IF k > Len(ps) THEN <<>> ELSE (IF In(ps[k].v[5], z0, z1) THEN <<ps[k]>> ELSE <<>>) \o Keep(ps, z0, z1, k + 1)
Bound(z0, z1, n, m) == Add(z0, Mul(<<m, n>>, Sub(z1, z0)))
Counts(ps, i, z0, z1, n, m) == IF m > n THEN <<>> ELSE
  LET a == Bound(z0, z1, n, m - 1)  b == Bound(z0, z1, n, m) IN
  <<Cardinality({k \in 1..Len(ps) : In(ps[k].v[i], a, b) \/ (m = n /\ i # 5 /\ ps[k].v[i] = z1)})>> \o Counts(ps, i, z0, z1, n, m + 1)
Ends(cs, k, s) == <<s>> \o (IF k > Len(cs) THEN <<>> ELSE Ends(cs, k + 1, s + cs[k]))
RECURSIVE Tot(_, _), Scaled(_, _, _), Slope(_, _, _, _, _), Slopes(_, _, _)
Tot(cs, k) == IF k > Len(cs) THEN 0 ELSE cs[k] + Tot(cs, k + 1)
Scaled(cs, a, k) == IF k > Len(cs) THEN <<>> ELSE <<Mul(a, I(cs[k]))>> \o Scaled(cs, a, k + 1)
(* the filter c of 2w + 1 coefficients, centred at slice n *)
Slope(h, c, w, n, j) == IF j > Len(c) THEN Zero ELSE LET m == n + j - 1 - w IN Add(IF m \in 1..Len(h) THEN Mul(c[j], h[m]) ELSE Zero, Slope(h, c, w, n, j + 1))
Slopes(h, c, n) == IF n > Len(h) THEN <<>> ELSE <<IF c = <<>> THEN Zero ELSE Slope(h, c, (Len(c) - 1) \div 2, n, 1)>> \o Slopes(h, c, n + 1)
Norm(cs, dz) == IF Tot(cs, 1) = 0 THEN Bad ELSE Div(One, Mul(I(Tot(cs, 1)), dz))
(* histogram of coordinate i: both limits are within *)
RECURSIVE Inside(_, _, _, _, _)
Inside(ps, i, a, b, k) == IF k > Len(ps) THEN <<>> ELSE (IF ~Less(ps[k].v[i], a) /\ ~Less(b, ps[k].v[i]) THEN <<ps[k]>> ELSE <<>>) \o Inside(ps, i, a, b, k + 1)
=============================================================================
