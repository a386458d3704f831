------------------------------- MODULE Maps -------------------------------
(* The motion through magnets and cavities: equations of motion up to second order in the phase-space
   coordinates x, x', y, y', ct, dp, integrated as series in the distance. A map is followed along a
   direction: the base point c, the first derivative a and half of the second derivative b of
   z(e) = c + e a + e^2 b. *)
EXTENDS Fx
NT == 15
(* a system: the entries <<i, j, c>> of z_i' = c z_j, and <<i, j, k, c>> of z_i' = c z_j z_k *)
RECURSIVE Row(_, _, _, _), RowQ(_, _, _, _, _), Conv(_, _, _, _, _, _)
Row(A, i, z, n) == IF n > Len(A) THEN 0 ELSE (IF A[n][1] = i THEN M(A[n][3], z[A[n][2]]) ELSE 0) + Row(A, i, z, n + 1)
Lin(A, z) == <<Row(A, 1, z, 1), Row(A, 2, z, 1), Row(A, 3, z, 1), Row(A, 4, z, 1), Row(A, 5, z, 1), Row(A, 6, z, 1)>>
RECURSIVE Times(_, _, _), Sum(_, _), Series(_, _), Forced(_, _, _, _, _)
Times(A, L, n) == IF n > Len(A) THEN <<>> ELSE <<[A[n] EXCEPT ![Len(A[n])] = M(@, L)]>> \o Times(A, L, n + 1)
Sum(s, n) == IF n > Len(s) THEN Z6 ELSE Plus(s[n], Sum(s, n + 1))
Series(A, s) == IF Len(s) > NT THEN s ELSE Series(A, Append(s, ByV(Lin(A, s[Len(s)]), Len(s))))
(* the n-th term of the product of the series of u_j and t_k *)
Conv(u, t, j, k, n, m) == IF m > n THEN 0 ELSE (IF u[m][j] = 0 \/ t[n + 1 - m][k] = 0 THEN 0 ELSE M(u[m][j], t[n + 1 - m][k])) + Conv(u, t, j, k, n, m + 1)
RowQ(Q, i, u, t, n) == LET s[m \in 0..Len(Q)] == IF m = 0 THEN 0 ELSE s[m - 1] + (IF Q[m][1] = i THEN M(Q[m][4], Conv(u, t, Q[m][2], Q[m][3], n, 1) + Conv(t, u, Q[m][2], Q[m][3], n, 1)) ELSE 0) IN s[Len(Q)]
Quad(Q, u, t, n) == <<RowQ(Q, 1, u, t, n), RowQ(Q, 2, u, t, n), RowQ(Q, 3, u, t, n), RowQ(Q, 4, u, t, n), RowQ(Q, 5, u, t, n), 0>>
Forced(A, Q, u, t, w) == IF Len(w) > NT THEN w ELSE Forced(A, Q, u, t, Append(w, ByV(Plus(Lin(A, w[Len(w)]), Quad(Q, u, t, Len(w))), Len(w))))
(* the first-order map; the symmetric second-order map, twice *)
First(A, z) == Sum(Series(A, <<z>>), 1)
Bil(A, Q, x, y) == IF Q = <<>> \/ x = Z6 \/ y = Z6 THEN Z6 ELSE \* the series are those without forcing
                   LET u == Series(A, <<x>>) IN LET t == IF x = y THEN u ELSE Series(A, <<y>>) IN Sum(Forced(A, Q, u, t, <<Z6>>), 1)
Jet(s, L, j) ==
  LET A == Times(s.A, L, 1)  Q == Times(s.Q, L, 1) IN
  [c |-> IF j.c = Z6 THEN Z6 ELSE Plus(First(A, j.c), ByV(Bil(A, Q, j.c, j.c), 2)),
   a |-> Plus(First(A, j.a), Bil(A, Q, j.c, j.a)),
   b |-> IF Len(j.b) = 7 THEN j.b ELSE Plus(Plus(First(A, j.b), ByV(Bil(A, Q, j.a, j.a), 2)), Bil(A, Q, j.c, j.b))]
Start(z, v) == [c |-> z, a |-> v, b |-> Z6]
None == <<0, 0, 0, 0, 0, 0, 0>> \* a second derivative that nobody asks for
-----------------------------------------------------------------------------
(* the equations of motion. p is the way in which the momenta enter:
   "slope": x' = dx/ds, forces weaker by 1 - dp; "mom": momenta in units of the reference, g = 1/(1 + dp) of the
   particles followed *)
Path(g) == <<<<5, 2, 2, -By(M(g, g), 2)>>, <<5, 4, 4, -By(M(g, g), 2)>>>>
(* momenta: either all particles followed have the same energy, or the energies are around that of the reference *)
Slow(p, g) == IF p = "mom" /\ g = U THEN <<<<1, 2, 6, -U>>, <<3, 4, 6, -U>>>> ELSE <<>>
DriftS(p, g) == [A |-> <<<<1, 2, g>>, <<3, 4, g>>>>, Q |-> Path(g) \o Slow(p, g)]
(* the field F = K z, K = a + i b: x'' = -Re F, y'' = Im F *)
Grad(a, b) == <<<<2, 1, -a>>, <<2, 3, b>>, <<4, 1, b>>, <<4, 3, a>>>>
GradChr(a, b) == <<<<2, 1, 6, a>>, <<2, 3, 6, -b>>, <<4, 1, 6, -b>>, <<4, 3, 6, -a>>>>
QuadS(p, g, k) == [A |-> DriftS(p, g).A \o Grad(k[1], k[2]), Q |-> Path(g) \o (IF p = "slope" THEN GradChr(k[1], k[2]) ELSE Slow(p, g))]
(* the field F = S z^2 *)
SextS(p, g, k) == [A |-> DriftS(p, g).A, Q |-> Path(g) \o Slow(p, g) \o <<<<2, 1, 1, -k[1]>>, <<2, 3, 3, k[1]>>, <<2, 1, 3, 2 * k[2]>>, <<4, 1, 1, k[2]>>, <<4, 3, 3, -k[2]>>, <<4, 1, 3, 2 * k[1]>>>>]
(* a sector bend of curvature h and gradient k, on its own curved axis *)
BendS(p, g, h, k) ==
  LET h2 == M(h, h) IN
  CASE p = "mom" -> (* paraxial *) [A |-> <<<<1, 2, g>>, <<2, 1, -h2 - k>>, <<2, 6, h>>, <<3, 4, g>>, <<4, 3, k>>, <<5, 1, -h>>>>, Q |-> Path(g) \o Slow(p, g)]
    [] p = "can" -> (* momenta, to second order; no gradient *)
         [A |-> <<<<1, 2, U>>, <<2, 1, -h2>>, <<2, 6, h>>, <<3, 4, U>>, <<5, 1, -h>>>>,
          Q |-> Path(U) \o <<<<1, 1, 2, h>>, <<1, 2, 6, -U>>, <<2, 2, 2, -By(h, 2)>>, <<2, 4, 4, -By(h, 2)>>, <<3, 1, 4, h>>, <<3, 4, 6, -U>>>>]
    [] OTHER -> (* angles dx/((1 + hx) ds) *)
         [A |-> <<<<1, 2, U>>, <<2, 1, -h2 - k>>, <<2, 6, h>>, <<3, 4, U>>, <<4, 3, k>>, <<5, 1, -h>>>>,
          Q |-> Path(U) \o <<<<1, 1, 2, h>>, <<2, 1, 1, -M(k, h)>>, <<2, 3, 3, By(M(k, h), 2)>>, <<2, 2, 2, -By(h, 2)>>, <<2, 4, 4, -By(h, 2)>>, <<2, 1, 6, h2 + k>>, <<2, 6, 6, -h>>,
                            <<3, 1, 4, h>>, <<4, 1, 3, M(k, h)>>, <<4, 3, 6, -k>>>>]
(* a solenoid with the fields at its ends, k = B / rigidity, seen from outside *)
SolS(k) == LET f == By(k, 2)  f2 == By(M(k, k), 4) IN
  [A |-> <<<<1, 2, U>>, <<1, 3, f>>, <<2, 1, -f2>>, <<2, 4, f>>, <<3, 4, U>>, <<3, 1, -f>>, <<4, 3, -f2>>, <<4, 2, -f>>>>,
   Q |-> <<<<1, 3, 6, -f>>, <<2, 1, 6, 2 * f2>>, <<2, 4, 6, -f>>, <<3, 1, 6, f>>, <<4, 3, 6, 2 * f2>>, <<4, 2, 6, f>>>>]
-----------------------------------------------------------------------------
(* thin kicks of a field F = sum f_n z^n over a length: x' -= Re F, y' += Im F *)
CJ(u, v) == <<CM(u[1], v[1]), CP(CM(u[1], v[2]), CM(u[2], v[1])), CP(CP(CM(u[1], v[3]), CM(u[3], v[1])), CM(u[2], v[2]))>>
RECURSIVE Pow(_, _)
C1 == <<<<U, 0>>, <<0, 0>>, <<0, 0>>>>
Pow(z, n) == IF n = 0 THEN C1 ELSE CJ(z, Pow(z, n - 1))
RECURSIVE Field(_, _, _)
Field(f, z, n) == IF n > Len(f) THEN <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>
                  ELSE LET w == CJ(<<<<f[n][2], f[n][3]>>, <<0, 0>>, <<0, 0>>>>, Pow(z, f[n][1]))  r == Field(f, z, n + 1) IN <<CP(w[1], r[1]), CP(w[2], r[2]), CP(w[3], r[3])>>
(* the momentum of the particle weakens the kick of slopes *)
Weak(p, j) == IF p # "slope" THEN C1 ELSE <<<<U - j.c[6] + M(j.c[6], j.c[6]), 0>>, <<-M(U - 2 * j.c[6], j.a[6]), 0>>, <<M(j.a[6], j.a[6]), 0>>>>
Kick(p, f, L, q, j) ==
  LET z == <<<<j.c[1], j.c[3]>>, <<j.a[1], j.a[3]>>, <<j.b[1], j.b[3]>>>>
      F == CJ(CJ(Field(f, z, 1), Weak(p, j)), <<<<q * L, 0>>, <<0, 0>>, <<0, 0>>>>) IN
  [c |-> [j.c EXCEPT ![2] = @ - F[1][1], ![4] = @ + F[1][2]],
   a |-> [j.a EXCEPT ![2] = @ - F[2][1], ![4] = @ + F[2][2]],
   b |-> [j.b EXCEPT ![2] = @ - F[3][1], ![4] = @ + F[3][2]]]
(* seen in axes turned by an angle: cs = its cosine and sine *)
TurnV(cs, z) == <<M(cs[1], z[1]) + M(cs[2], z[3]), M(cs[1], z[2]) + M(cs[2], z[4]), M(cs[1], z[3]) - M(cs[2], z[1]), M(cs[1], z[4]) - M(cs[2], z[2]), z[5], z[6]>>
Turn(cs, j) == IF cs = <<U, 0>> THEN j ELSE [c |-> TurnV(cs, j.c), a |-> TurnV(cs, j.a), b |-> TurnV(cs, j.b)]
Back(cs, j) == Turn(<<cs[1], -cs[2]>>, j)
(* a quadratic kick: the entries <<i, j, k, c>> of dz_i = c z_j z_k *)
QuadV(Q, x, y) == LET R(i) == LET s[m \in 0..Len(Q)] == IF m = 0 THEN 0 ELSE s[m - 1] + (IF Q[m][1] = i THEN M(Q[m][4], M(x[Q[m][2]], y[Q[m][3]])) ELSE 0) IN s[Len(Q)] IN <<R(1), R(2), R(3), R(4), R(5), R(6)>>
Bump(Q, j) == [c |-> Plus(j.c, QuadV(Q, j.c, j.c)),
               a |-> Plus(j.a, Plus(QuadV(Q, j.c, j.a), QuadV(Q, j.a, j.c))),
               b |-> Plus(j.b, Plus(QuadV(Q, j.a, j.a), Plus(QuadV(Q, j.c, j.b), QuadV(Q, j.b, j.c))))]
(* kicks proportional to the position *)
LensV(a, b, z) == [z EXCEPT ![2] = @ + M(a, z[1]), ![4] = @ + M(b, z[3])]
Lens(a, b, j) == [c |-> LensV(a, b, j.c), a |-> LensV(a, b, j.a), b |-> LensV(a, b, j.b)]
=============================================================================
