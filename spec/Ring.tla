-------------------------------- MODULE Ring --------------------------------
(* Rings of magnets seen by second-order maps: the orbit that closes, the motion about it turn by turn, dispersion, and the
   beam shapes that close. A shape is a symmetric 4 x 4 matrix by its lower triangle. *)
EXTENDS Elems
From(es, n) == SubSeq(es, n + 1, Len(es)) \o SubSeq(es, 1, n)
RECURSIVE Passed(_, _)
One(e, j) == Elem("trans", 1, e, [j EXCEPT !.b = None])
Passed(es, j) == IF es = <<>> THEN j ELSE Passed(Tail(es), One(es[1], j))
Along(es, z, v) == Passed(es, Start(z, v))
E1 == <<U, 0, 0, 0, 0, 0>>
E2 == <<0, U, 0, 0, 0, 0>>
E3 == <<0, 0, U, 0, 0, 0>>
E4 == <<0, 0, 0, U, 0, 0>>
E5 == <<0, 0, 0, 0, U, 0>>
E6 == <<0, 0, 0, 0, 0, U>>
(* first-order maps by columns *)
Cols(es, z) == <<Along(es, z, E1).a, Along(es, z, E2).a, Along(es, z, E3).a, Along(es, z, E4).a>>
Cols6(es, z) == Cols(es, z) \o <<Along(es, z, E5).a, Along(es, z, E6).a>>
(* R by columns on a vector, on vectors *)
On(R, v) == <<M(R[1][1], v[1]) + M(R[2][1], v[2]) + M(R[3][1], v[3]) + M(R[4][1], v[4]), M(R[1][2], v[1]) + M(R[2][2], v[2]) + M(R[3][2], v[3]) + M(R[4][2], v[4]),
              M(R[1][3], v[1]) + M(R[2][3], v[2]) + M(R[3][3], v[3]) + M(R[4][3], v[4]), M(R[1][4], v[1]) + M(R[2][4], v[2]) + M(R[3][4], v[3]) + M(R[4][4], v[4])>>
OnAll(R, W) == <<On(R, W[1]), On(R, W[2]), On(R, W[3]), On(R, W[4])>>
T(W) == <<<<W[1][1], W[2][1], W[3][1], W[4][1]>>, <<W[1][2], W[2][2], W[3][2], W[4][2]>>, <<W[1][3], W[2][3], W[3][3], W[4][3]>>, <<W[1][4], W[2][4], W[3][4], W[4][4]>>>>
(* a shape from its triangle: 11 21 22 31 32 33 41 42 43 44 *)
Full4(t) == <<<<t[1], t[2], t[4], t[7]>>, <<t[2], t[3], t[5], t[8]>>, <<t[4], t[5], t[6], t[9]>>, <<t[7], t[8], t[9], t[10]>>>>
(* R s R^T of the symmetric s *)
Carried(R, s) == OnAll(R, T(OnAll(R, s)))
Tw2(v) == <<v[2], -v[1], v[4], -v[3]>>
(* s S t, by columns; S = ((0 1) (-1 0)) in each plane *)
Sand(s, t) == <<On(s, Tw2(t[1])), On(s, Tw2(t[2])), On(s, Tw2(t[3])), On(s, Tw2(t[4]))>>
(* the trace of s S s S *)
Norm(s) == LET w == Sand(s, s) IN 0 - w[2][1] + w[1][2] - w[4][3] + w[3][4]
(* where the vectors of a mode have turned to: cosine and sine up to a factor; shapes in units of 10 *)
Turned(R, s, i) == LET n == s[i]  w == On(s, Tw2(n)) IN <<On(R, n)[i], -10 * On(R, w)[i]>>
Coupled(e) == e.k = "sol" \/ (e.k = "mult" /\ \E i \in 1..Len(e.f) : e.f[i][1] = 1 /\ e.f[i][3] # 0) \/ (e.k = "bend" /\ e.tilt[2] # 0 /\ e.tilt[1] # 0) \/ (e.k = "bend" /\ Coef(e.f, 1)[2] # 0)
Flat4(es) == \A i \in 1..Len(es) : ~Coupled(es[i])
Tr(R, i) == R[i][i] + R[i + 1][i + 1]
-----------------------------------------------------------------------------
(* without roots: what is left unchanged by one turn in a plane of a flat ring, ((R12, (R22 - R11)/2) (.., -R21)) *)
Inv2(R, i) == <<R[i + 1][i], By(R[i + 1][i + 1] - R[i][i], 2), -R[i][i + 1]>>
Carry2(R, i, q) == LET a == R[i][i]  b == R[i + 1][i]  c == R[i][i + 1]  d == R[i + 1][i + 1] IN
  <<M(M(a, a), q[1]) + 2 * M(M(a, b), q[2]) + M(M(b, b), q[3]), M(M(a, c), q[1]) + M(M(a, d) + M(b, c), q[2]) + M(M(b, d), q[3]), M(M(c, c), q[1]) + 2 * M(M(c, d), q[2]) + M(M(d, d), q[3])>>
(* the dispersion times 2 - trace: adj(1 - R) d *)
Disp2(R, d, i) == <<M(U - R[i + 1][i + 1], d[i]) + M(R[i + 1][i], d[i + 1]), M(R[i][i + 1], d[i]) + M(U - R[i][i], d[i + 1])>>
=============================================================================
