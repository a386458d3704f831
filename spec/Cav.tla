-------------------------------- MODULE Cav --------------------------------
(* Cavities. A particle that arrives with ct = c is seen by the phase phi - k c. Numbers along the direction followed are
   2-jets <<value, derivative, half of the second derivative>>. *)
EXTENDS Maps
SM(u, v) == <<M(u[1], v[1]), M(u[1], v[2]) + M(u[2], v[1]), M(u[1], v[3]) + M(u[3], v[1]) + M(u[2], v[2])>>
SA(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
SK(k, u) == <<M(k, u[1]), M(k, u[2]), M(k, u[3])>>
SU == <<U, 0, 0>>
SI(u) == LET i == Inv(u[1])  d == M(u[2], i) IN <<i, -M(d, i), M(M(d, d) - M(u[3], i), i)>>
SC(j, i) == <<j.c[i], j.a[i], j.b[i]>>
Jets(w) == [c |-> <<w[1][1], w[2][1], w[3][1], w[4][1], w[5][1], w[6][1]>>, a |-> <<w[1][2], w[2][2], w[3][2], w[4][2], w[5][2], w[6][2]>>, b |-> <<w[1][3], w[2][3], w[3][3], w[4][3], w[5][3], w[6][3]>>]
(* series, for small arguments *)
RECURSIVE CosT(_, _, _), LnT(_, _, _)
CosT(x2, t, n) == IF n > 12 THEN 0 ELSE t + CosT(x2, By(-M(x2, t), n * (n + 1)), n + 2)
Cos(x) == CosT(M(x, x), U, 1)
Sin(x) == CosT(M(x, x), x, 2)
LnT(x, t, n) == IF n > 20 THEN 0 ELSE By(t, n) + LnT(x, -M(t, x), n + 1)
SinR(x) == CosT(M(x, x), U, 2) \* sin(x) / x
Inv8 == 353553 \* 1 / sqrt 8
LnR(x) == LnT(x, U, 1) \* ln(1 + x) / x
(* cos(phi - k ct) *)
Wave(e, j) ==
  LET x == M(e.wk, j.c[5])  C == M(e.phi[1], Cos(x)) + M(e.phi[2], Sin(x))  Sn == M(e.phi[2], Cos(x)) - M(e.phi[1], Sin(x))  d == M(e.wk, j.a[5]) IN
  <<C, M(Sn, d), M(Sn, M(e.wk, j.b[5])) - By(M(C, M(d, d)), 2)>>
P1(j) == SA(SU, SC(j, 6))
(* a drift of momenta *)
DriftJ(L, j) ==
  LET g == SI(P1(j))  x == SM(SC(j, 2), g)  y == SM(SC(j, 4), g)  pl == SA(SM(x, x), SM(y, y)) IN
  Jets(<<SA(SC(j, 1), SK(L, x)), SC(j, 2), SA(SC(j, 3), SK(L, y)), SC(j, 4), SA(SC(j, 5), SK(-By(L, 2), pl)), SC(j, 6)>>)
Straight(L, j) == LET f(z) == [z EXCEPT ![1] = @ + M(L, z[2]), ![3] = @ + M(L, z[4])] IN [c |-> f(j.c), a |-> f(j.a), b |-> f(j.b)]
(* a field that begins or ends focuses *)
CavEdge(e, sg, j) ==
  LET a == SK(-sg * By(e.g, 2), SM(Wave(e, j), SI(P1(j)))) IN
  Jets(<<SC(j, 1), SA(SC(j, 2), SM(a, SC(j, 1))), SC(j, 3), SA(SC(j, 4), SM(a, SC(j, 3))), SC(j, 5), SC(j, 6)>>)
(* the gain of the reference over its momentum *)
Gain(e, L) == M(M(e.g, L), e.phi[1])
(* the length for which the angle at the entrance counts, as the angle falls with the growing momentum; to second order of
   the gain dE over the momentum *)
Long(S, L, dE) == SK(L, SA(SU, SK(-U \div 2, IF S = "smp" THEN <<dE[1], 0, 0>> ELSE dE)))
(* a travelling wave with full acceleration: the momentum of each grows by the voltage it sees, the transverse momentum stays *)
Accel(S, e, ds, j) ==
  LET G == M(e.g, ds)  w == Wave(e, j)  p == P1(j)  pin == IF S = "smp" THEN <<p[1], 0, 0>> ELSE p  dE == SM(SK(G, w), SI(pin))
      f == SI(SA(SU, IF S = "smp" THEN <<dE[1], 0, 0>> ELSE dE))  r == Long(S, ds, dE)
      new == SM(SA(p, SK(G, w)), <<Inv(U + Gain(e, ds)), 0, 0>>) IN
  Jets(<<SA(SC(j, 1), SM(r, SC(j, 2))), SM(f, SC(j, 2)), SA(SC(j, 3), SM(r, SC(j, 4))), SM(f, SC(j, 4)), SC(j, 5), SA(new, <<-U, 0, 0>>)>>)
(* without: only the energy *)
Buzz(e, ds, j) == LET w == SK(M(e.g, ds), Wave(e, j)) IN Jets(<<SC(j, 1), SC(j, 2), SC(j, 3), SC(j, 4), SC(j, 5), SA(SC(j, 6), w)>>)
(* a standing wave in whole cells, after Rosenzweig and Serafini: on x, x' *)
StandM(e, L) ==
  LET y == Gain(e, L)  c == e.phi[1]  r2 == 1414214
      al == M(M(M(e.g, L), LnR(y)), Inv8)  ca == Cos(al)  sa == Sin(al)  gf == Inv(U + y) IN
  <<ca - M(r2, M(c, sa)), M(L, M(LnR(y), IF al = 0 THEN U ELSE SinR(al))),
    -M(M(e.g, gf), M(M(U + 2 * M(c, c), Inv8), sa)), M(ca + M(r2, M(c, sa)), gf)>>
Stand(S, e, L, j) ==
  LET m == StandM(e, L)  mom == S = "symp"  g == SI(P1(j))
      In(i) == IF mom THEN SM(SC(j, i), g) ELSE SC(j, i)
      new == SM(SA(P1(j), SK(M(e.g, L), Wave(e, j))), <<Inv(U + Gain(e, L)), 0, 0>>)
      Out(u) == IF mom THEN SM(u, new) ELSE u
      P(i) == SA(SK(m[1], SC(j, i)), SK(m[2], In(i + 1)))  A(i) == Out(SA(SK(m[3], SC(j, i)), SK(m[4], In(i + 1)))) IN
  Jets(<<P(1), A(1), P(3), A(3), SC(j, 5), SA(new, <<-U, 0, 0>>)>>)
(* a field across the axis kicks all along *)
Across(e, ds, j) ==
  LET w == SM(SK(M(e.g, ds), Wave(e, j)), SI(P1(j)))  L2 == By(ds, 2)
      X(i, cs) == SA(SA(SC(j, i), SK(ds, SC(j, i + 1))), SK(M(cs, L2), w))  A(i, cs) == SA(SC(j, i), SK(cs, w)) IN
  Jets(<<X(1, e.th[1]), A(2, e.th[1]), X(3, e.th[2]), A(4, e.th[2]), SC(j, 5), SC(j, 6)>>)
Full(S, e) == e.k = "sw" \/ (e.k = "tw" /\ S # "symp" /\ (e.full # 0 \/ S = "smp"))
CavBody(S, e, ds, j) ==
  CASE e.g = 0 -> IF S = "symp" THEN DriftJ(ds, j) ELSE Straight(ds, j)
    [] e.k = "sw" -> Stand(S, e, ds, j)
    [] e.k = "trf" -> Across(e, ds, j)
    [] S = "symp" -> LET h == By(ds, 2) IN DriftJ(h, Buzz(e, ds, DriftJ(h, j)))
    [] e.full = 0 /\ S # "smp" -> Straight(ds, Buzz(e, ds, j))
    [] OTHER -> Accel(S, e, ds, j)
CavEnd(S, e, sg, j) == IF e.k = "tw" /\ S # "symp" THEN CavEdge(e, sg, j) ELSE j
(* what is left to do for a cavity, or the strength of a magnet, in units of the grown momentum *)
Grown(S, e, p) ==
  CASE p = U -> e
    [] e.k \in {"tw", "sw", "trf"} -> [e EXCEPT !.g = M(@, Inv(p))]
    [] e.k = "sol" -> [e EXCEPT !.ks = M(@, Inv(p))]
    [] e.k = "mult" -> LET i == Inv(p) F[n \in 0..Len(e.f)] == IF n = 0 THEN <<>> ELSE Append(F[n - 1], <<e.f[n][1], M(e.f[n][2], i), M(e.f[n][3], i)>>) IN [e EXCEPT !.f = F[Len(e.f)]]
    [] OTHER -> e
=============================================================================
