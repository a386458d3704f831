------------------------------- MODULE Elems -------------------------------
(* Components and the ways of tracking through them: "trans", second-order maps of slopes; "thin", first-order
   maps of slopes with the chromatic terms of quadrupoles; "symp", the momenta of an expanded Hamiltonian.
   A component is followed in steps; within a step what is not part of the equations of motion kicks at its centre. *)
EXTENDS Cav
Has(f, n) == \E i \in 1..Len(f) : f[i][1] = n /\ <<f[i][2], f[i][3]>> # <<0, 0>>
Coef(f, n) == IF Has(f, n) THEN LET i == CHOOSE k \in 1..Len(f) : f[k][1] = n IN <<f[i][2], f[i][3]>> ELSE <<0, 0>>
Above(f, n) == \E i \in 1..Len(f) : f[i][1] > n /\ <<f[i][2], f[i][3]>> # <<0, 0>>
Without(f, ns) == SelectSeq(f, LAMBDA t : t[1] \notin ns)
Mom(S) == IF S = "symp" THEN "mom" ELSE "slope"
(* without the second order *)
Flat(s) == [A |-> s.A, Q |-> <<>>]
G(S, j) == IF S = "symp" THEN Inv(U + j.c[6]) ELSE U
(* the body of a multipole: the quadrupole, else (to second order) the sextupole, and the rest as a kick *)

MultStep(S, q, f, ds, j) ==
  LET p == Mom(S)  g == G(S, j)  k1 == Coef(f, 1)  k2 == Coef(f, 2)
      qk1 == <<q * k1[1], q * k1[2]>>  qk2 == <<q * k2[1], q * k2[2]>>
      how == IF k1 # <<0, 0>> THEN 1 ELSE IF k2 # <<0, 0>> /\ S = "trans" THEN 2 ELSE 0
      rest == Without(f, {how} \ {0})
      split == \E i \in 1..Len(rest) : <<rest[i][2], rest[i][3]>> # <<0, 0>>
      s == IF how = 1 THEN QuadS(p, g, qk1) ELSE IF how = 2 THEN SextS(p, g, qk2) ELSE DriftS(p, g) IN
  IF split THEN LET h == By(ds, 2) IN Jet(s, h, Kick(p, rest, ds, q, Jet(s, h, j))) ELSE Jet(s, ds, j)
(* the body of a bend. r: the momentum of the beam over the matched one *)
BendStep(S, q, e, r, ds, j) ==
  LET f == e.f  k1 == Coef(f, 1)  k == q * k1[1]  c0 == Coef(f, 0)
      rest == <<<<0, 0, c0[2]>>, <<1, 0, k1[2]>>>> \o Without(f, {0, 1})
      split == c0[2] # 0 \/ k1[2] # 0 \/ Above(f, 1)
      s == CASE S = "symp" -> BendS("mom", G(S, j), e.h, k) [] S = "thin" -> Flat(BendS("slope", U, e.h, k))
             [] OTHER -> IF k = 0 THEN BendS("can", U, e.h, 0) ELSE BendS("slope", U, e.h, M(k, r))
      In(i) == IF S = "symp" \/ r = U THEN i ELSE [c |-> [i.c EXCEPT ![6] = M(r, U + @) - U], a |-> [i.a EXCEPT ![6] = M(r, @)], b |-> i.b]
      Out(i) == [c |-> [i.c EXCEPT ![6] = j.c[6]], a |-> [i.a EXCEPT ![6] = j.a[6]], b |-> i.b]
      B(L, i) == Out(Jet(s, L, In(i))) IN
  IF split THEN LET h == By(ds, 2) IN B(h, Kick(Mom(S), rest, ds, q, B(h, j))) ELSE B(ds, j)
(* the pole face: angle by its cosine and sine, field integral and half gap *)
Tan3(x) == LET x2 == M(x, x) IN x + By(M(x, x2), 3) + By(2 * M(x, M(x2, x2)), 15)
Face(h, pf, j) ==
  IF pf = <<>> THEN j ELSE
  LET s == pf[1][2]  t == Quot(s, pf[1][1])
      psi == Tan3(2 * M(M(M(pf[2], pf[3]), h), Quot(U + M(s, s), pf[1][1])))
      tp == Quot(t - psi, U + M(t, psi)) IN
  Lens(M(h, t), -M(h, tp), j)
(* to second order the face is that of a field which ends sharply *)
FaceQ(h, k, t, sg) ==
  LET hh == sg * By(h, 2)  t2 == M(t, t)  s2 == U + t2  h2 == M(h, h)  kt == M(k, t)  h3 == M(h2, M(t, t2)) IN
  <<<<1, 1, 1, -M(hh, t2)>>, <<1, 3, 3, M(hh, s2)>>, <<2, 1, 2, 2 * M(hh, t2)>>, <<2, 3, 4, -2 * M(hh, t2)>>, <<3, 1, 3, 2 * M(hh, t2)>>, <<4, 1, 4, -2 * M(hh, t2)>>, <<4, 2, 3, -2 * M(hh, s2)>>>>
  \o (IF sg = 1 THEN <<<<2, 1, 1, kt>>, <<2, 3, 3, M(h2, By(t, 2)) + h3 - kt>>, <<4, 1, 3, -2 * kt>>>>
      ELSE <<<<2, 1, 1, kt - By(h3, 2)>>, <<2, 3, 3, -By(h3, 2) - kt>>, <<4, 1, 3, M(h2, M(t, s2)) - 2 * kt>>>>)
Face2(h, k, pf, sg, j) ==
  LET f == Face(h, pf, j)  t == IF pf = <<>> THEN 0 ELSE Quot(pf[1][2], pf[1][1])  b == Bump(FaceQ(h, k, t, sg), j) IN
  [c |-> Plus(f.c, Minus(b.c, j.c)), a |-> Plus(f.a, Minus(b.a, j.a)), b |-> Plus(f.b, Minus(b.b, j.b))]
Faces(e, w) == IF e.faces = "none" THEN <<>> ELSE IF e.faces = "same" \/ w = 1 THEN e.in ELSE e.out
End(S, q, e, sg, j) == LET pf == Faces(e, IF sg = 1 THEN 1 ELSE 2) IN
  IF S = "trans" THEN Face2(e.h, q * Coef(e.f, 1)[1], pf, sg, j) ELSE Face(e.h, pf, j)
(* sliced macroparticles have one energy each: first-order maps for their rigidity *)
Slice(q, e, r, ds, j) ==
  LET g == Inv(U + j.c[6])  W(k) == M(q * k, g) IN
  CASE e.k \in {"drift", "monitor"} -> Jet(Flat(DriftS("slope", U)), ds, j)
    [] e.k = "marker" -> j
    [] e.k = "sol" -> Jet(Flat(SolS(W(e.ks))), ds, j)
    [] e.k = "mult" ->
         LET k1 == Coef(e.f, 1)  d == <<<<0, W(Coef(e.f, 0)[1]), W(Coef(e.f, 0)[2])>>>>  s == Flat(QuadS("slope", U, <<W(k1[1]), W(k1[2])>>))  h == By(ds, 2) IN
         IF e.L = 0 THEN Kick("mom", d \o <<<<1, W(k1[1]), W(k1[2])>>>>, U, 1, j) ELSE IF Has(e.f, 0) THEN Jet(s, h, Kick("mom", d, ds, 1, Jet(s, h, j))) ELSE Jet(s, ds, j)
    [] e.k = "bend" -> BendStep("thin", q, e, r, ds, j)
Body(S, q, e, r, ds, j) ==
  IF e.k \in {"tw", "sw", "trf"} THEN CavBody(S, e, ds, j) ELSE
  IF S = "smp" THEN Slice(q, e, r, ds, j) ELSE
  CASE e.k = "drift" \/ e.k = "monitor" -> IF S = "symp" THEN DriftJ(ds, j) ELSE Jet(DriftS(Mom(S), G(S, j)), ds, j)
    [] e.k = "marker" -> j
    [] e.k = "sol" -> Jet(SolS(q * e.ks), ds, j)
    [] e.k = "mult" -> IF e.L = 0 THEN Kick(Mom(S), e.f, U, q, j) ELSE MultStep(S, q, e.f, ds, j)
    [] e.k = "bend" -> BendStep(S, q, e, r, ds, j)
RECURSIVE Steps(_, _, _, _, _, _, _)
Steps(S, q, e, r, i, s, j) ==
  IF Len(e.steps) = 0 \/ i = Len(e.steps) THEN Body(S, q, e, r, e.L - s, j)
  ELSE Steps(S, q, IF Full(S, e) THEN Grown(S, e, U + Gain(e, e.steps[i])) ELSE e, r, i + 1, s + e.steps[i], Body(S, q, e, r, e.steps[i], j))
Elem(S, q, e, j) ==
  IF e.k = "tw" THEN CavEnd(S, IF Full(S, e) THEN Grown(S, e, U + Gain(e, e.L)) ELSE e, -1, Steps(S, q, e, U, 1, 0, CavEnd(S, e, 1, j)))
  ELSE IF e.k # "bend" THEN Steps(S, q, e, U, 1, 0, j)
  ELSE Back(e.tilt, End(S, q, e, -1, Steps(S, q, e, Quot(q * e.h, e.b0), 1, 0, End(S, q, e, 1, Turn(e.tilt, j)))))
(* a row of components; p: the momentum of the reference so far *)
RECURSIVE GoP(_, _, _, _, _), Mtm(_, _, _)
Growth(S, e) == IF Full(S, e) THEN U + Gain(e, e.L) ELSE U
GoP(S, q, es, p, j) == IF es = <<>> THEN j ELSE LET e == Grown(S, es[1], p) IN GoP(S, q, Tail(es), M(p, Growth(S, e)), Elem(S, q, e, j))
Mtm(S, es, p) == IF es = <<>> THEN p ELSE Mtm(S, Tail(es), M(p, Growth(S, Grown(S, es[1], p))))
Go(S, q, es, j) == GoP(S, q, es, U, j)
RECURSIVE Length(_)
Length(es) == IF es = <<>> THEN 0 ELSE es[1].L + Length(Tail(es))
(* what a set says of the result: the path length, the second order *)
Timed(S, es) == S # "thin" /\ \A i \in 1..Len(es) : es[i].k \notin {"sol", "monitor"} /\ (S = "symp" \/ es[i].k \notin {"tw", "sw", "trf"})
(* of the thin set the path length is left open, and with it what later cavities make of it *)
Second(S, es) == (S = "thin" /\ Len(es) > 1 => \A i \in 1..Len(es) : es[i].k \notin {"tw", "trf"}) /\ \A i \in 1..Len(es) : es[i].k = "bend" => S # "thin"
=============================================================================
