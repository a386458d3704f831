------------------------------- MODULE Beam -------------------------------
(* the phase space of a beam (B03): a matrix made of dispersion, envelope and coupling takes normalised coordinates to those of the particles.
   beam: bx, by (roots of the betas), ax, ay, ex, ey (roots of the emittances), sdp, sz, c (centroid), D (dispersions),
   C, cs (the coupling parameters are an angle times C; its cosine and sine) *)
EXTENDS Rat
Id(i, j) == IF i = j THEN One ELSE Zero
RECURSIVE Dot(_, _, _, _, _), Row(_, _, _, _), Rows(_, _, _)
Dot(a, b, i, j, k) == IF k > 6 THEN Zero ELSE Add(Mul(a[i][k], b[k][j]), Dot(a, b, i, j, k + 1))
Row(a, b, i, j) == IF j > 6 THEN <<>> ELSE <<Dot(a, b, i, j, 1)>> \o Row(a, b, i, j + 1)
Rows(a, b, i) == IF i > 6 THEN <<>> ELSE <<Row(a, b, i, 1)>> \o Rows(a, b, i + 1)
MM(a, b) == Rows(a, b, 1)
Tr(a) == <<<<a[1][1], a[2][1], a[3][1], a[4][1], a[5][1], a[6][1]>>, <<a[1][2], a[2][2], a[3][2], a[4][2], a[5][2], a[6][2]>>, <<a[1][3], a[2][3], a[3][3], a[4][3], a[5][3], a[6][3]>>,
           <<a[1][4], a[2][4], a[3][4], a[4][4], a[5][4], a[6][4]>>, <<a[1][5], a[2][5], a[3][5], a[4][5], a[5][5], a[6][5]>>, <<a[1][6], a[2][6], a[3][6], a[4][6], a[5][6], a[6][6]>>>>
Long == <<<<Zero, Zero, Zero, Zero, One, Zero>>, <<Zero, Zero, Zero, Zero, Zero, One>>>>
Disp(D) == <<<<One, Zero, Zero, Zero, Zero, D[1]>>, <<Zero, One, Zero, Zero, Zero, D[2]>>, <<Zero, Zero, One, Zero, Zero, D[3]>>, <<Zero, Zero, Zero, One, Zero, D[4]>>>> \o Long
(* envelope: b the root of beta, a alpha *)
Env(bx, ax, by, ay) == <<<<bx, Zero, Zero, Zero, Zero, Zero>>, <<Neg(Div(ax, bx)), Div(One, bx), Zero, Zero, Zero, Zero>>, <<Zero, Zero, by, Zero, Zero, Zero>>, <<Zero, Zero, Neg(Div(ay, by)), Div(One, by), Zero, Zero>>>> \o Long
Coup(C, h, s) == <<<<h, Zero, Mul(s, C[1]), Mul(s, C[2]), Zero, Zero>>, <<Zero, h, Neg(Mul(s, C[3])), Neg(Mul(s, C[4])), Zero, Zero>>,
                   <<Mul(s, C[4]), Mul(s, C[2]), h, Zero, Zero, Zero>>, <<Neg(Mul(s, C[3])), Neg(Mul(s, C[1])), Zero, h, Zero, Zero>>>> \o Long
Normal(b) == MM(Disp(b.D), MM(Env(b.bx, b.ax, b.by, b.ay), Coup(b.C, b.cs[1], b.cs[2])))
Sizes(b) == <<b.ex, b.ex, b.ey, b.ey, b.sz, b.sdp>>
RECURSIVE App(_, _, _)
Apply1(m, v, i) == Add(Add(Add(Mul(m[i][1], v[1]), Mul(m[i][2], v[2])), Add(Mul(m[i][3], v[3]), Mul(m[i][4], v[4]))), Add(Mul(m[i][5], v[5]), Mul(m[i][6], v[6])))
App(m, v, i) == IF i > 6 THEN <<>> ELSE <<Apply1(m, v, i)>> \o App(m, v, i + 1)
Times(u, v) == <<Mul(u[1], v[1]), Mul(u[2], v[2]), Mul(u[3], v[3]), Mul(u[4], v[4]), Mul(u[5], v[5]), Mul(u[6], v[6])>>
Plus(u, v) == <<Add(u[1], v[1]), Add(u[2], v[2]), Add(u[3], v[3]), Add(u[4], v[4]), Add(u[5], v[5]), Add(u[6], v[6])>>
Centroid(b) == b.c \o <<Zero>>
(* the particle of a beam that a normalised one stands for *)
Particle(b, m, u) == Plus(App(m, Times(Sizes(b), u), 1), Centroid(b))
(* what a filter lets through *)
Outside(x, o, l) == Less(Add(o, l), x) \/ Less(x, Sub(o, l))
Passes(f, v, lim, orb) ==
  CASE f = "" -> TRUE [] f = "odd" -> v[1][1] > 0
    [] f = "x" -> Outside(v[1], orb, lim) /\ v[1] # Zero /\ v[2] # Zero
    [] OTHER -> Outside(v[3], Zero, lim)
(* the n particles of a beam from those drawn one after another: <<particles, how many were drawn>> *)
RECURSIVE Drawn(_, _, _, _, _, _, _)
Drawn(b, m, e, ps, n, k, out) ==
  IF Len(out) >= n THEN <<out, k>> ELSE
  LET v == Particle(b, m, ps[1 + (k % Len(ps))].v) IN
  Drawn(b, m, e, ps, n, k + 1, IF Passes(e.filter, v, e.lim, e.orb) THEN Append(out, v) ELSE out)
(* second moments, the first index is not below the second *)
Sq(a) == Mul(a, a)
Dg(d) == <<<<d[1], Zero, Zero, Zero, Zero, Zero>>, <<Zero, d[2], Zero, Zero, Zero, Zero>>, <<Zero, Zero, d[3], Zero, Zero, Zero>>, <<Zero, Zero, Zero, d[4], Zero, Zero>>, <<Zero, Zero, Zero, Zero, d[5], Zero>>, <<Zero, Zero, Zero, Zero, Zero, d[6]>>>>
Sigma(b) == \* M diag(sizes squared) M^T
  LET a == MM(Normal(b), Dg(Sizes(b))) IN MM(a, Tr(a))
Det2(s, i, j) == Sub(Mul(s[i][i], s[j][j]), Sq(s[i][j]))
=============================================================================
