------------------------------- MODULE MCMaps -------------------------------
(* every short row of components in every set. Told of what the specification says of them: the motion through two
   halves is that through the whole; a rotated quadrupole is the upright one seen from rotated axes; maps of any row
   are symplectic; motion backwards returns to where it began, to second order. *)
EXTENDS Elems, Json, TLC
CONSTANTS N, Sets, Kinds, Dirs, Charges, Show
Both == {1, -1}
FewDirs == {<<U, U, -U, 500000, 500000, 700000>>}
SomeDirs == {<<U, 0, 0, U, 0, 0>>, <<0, U, U, 0, 0, 500000>>, <<U, U, -U, 500000, 0, 0>>, <<0, 0, 0, 0, 500000, U>>}
VARIABLES s, q, v, els, j
vars == <<s, q, v, els, j>>
Drift == [k |-> "drift", L |-> 500000, steps |-> <<>>]
Mult(L, f) == [k |-> "mult", L |-> L, f |-> f, steps |-> <<>>]
Qd(a, b) == Mult(500000, <<<<1, a, b>>>>)
Bend(L, h, b0, f, tilt, faces, in, out) == [k |-> "bend", L |-> L, h |-> h, b0 |-> b0, f |-> f, tilt |-> tilt, faces |-> faces, in |-> in, out |-> out, steps |-> <<>>]
Sol(L, ks) == [k |-> "sol", L |-> L, ks |-> ks, steps |-> <<>>]
Tw(L, g, phi, full) == [k |-> "tw", wk |-> 6000000, L |-> L, g |-> g, phi |-> phi, full |-> full, steps |-> <<>>]
Cavity(e) == e.k \in {"tw", "sw", "trf"}
Up == <<U, 0>>
Fa == <<<<995037, 99504>>, 0, 0>>
Fb == <<<<980581, -196116>>, 500000, 50000>>
Elements ==
  ("drift" :> Drift) @@ ("qf" :> Qd(1200000, 0)) @@ ("qd" :> Qd(-900000, 0)) @@ ("skew" :> Qd(0, 800000)) @@ ("rot" :> Qd(360000, -480000))
  @@ ("sext" :> Mult(800000, <<<<2, 1000000, 0>>>>)) @@ ("ssext" :> Mult(500000, <<<<2, -700000, 400000>>>>)) @@ ("oct" :> Mult(500000, <<<<3, 500000, 300000>>>>))
  @@ ("cor" :> Mult(200000, <<<<0, 3000, -2000>>>>)) @@ ("thin" :> Mult(0, <<<<0, 1000, 0>>, <<1, 500000, -300000>>, <<2, 400000, 0>>>>)) @@ ("qs" :> Mult(500000, <<<<1, 600000, 300000>>, <<2, 500000, -200000>>>>))
  @@ ("bend" :> Bend(500000, 500000, 500000, <<>>, Up, "none", <<>>, <<>>)) @@ ("bendp" :> Bend(500000, -1000000, -1000000, <<>>, Up, "same", Fa, <<>>))
  @@ ("bendf" :> Bend(1000000, 500000, 500000, <<>>, Up, "both", Fa, Fb)) @@ ("bendo" :> Bend(500000, 500000, 500000, <<>>, Up, "both", <<>>, Fb))
  @@ ("cf" :> Bend(500000, 500000, 500000, <<<<1, 700000, 0>>>>, Up, "none", <<>>, <<>>)) @@ ("cd" :> Bend(500000, 500000, 500000, <<<<1, -800000, 0>>>>, Up, "same", Fb, <<>>))
  @@ ("tilt" :> Bend(500000, 500000, 500000, <<<<1, 300000, 0>>>>, <<600000, 800000>>, "both", Fa, Fa)) @@ ("vert" :> Bend(500000, -500000, -500000, <<>>, <<0, U>>, "none", <<>>, <<>>))
  @@ ("off" :> Bend(500000, 500000, 510000, <<<<1, 300000, 0>>>>, Up, "none", <<>>, <<>>)) @@ ("bsk" :> Bend(500000, 500000, 500000, <<<<1, 400000, 200000>>, <<2, 500000, 0>>>>, Up, "none", <<>>, <<>>))
  @@ ("tw" :> Tw(500000, 400000, <<800000, 600000>>, 1)) @@ ("twd" :> Tw(300000, -500000, <<600000, -800000>>, 2)) @@ ("tw0" :> Tw(500000, 300000, <<0, U>>, 0)) @@ ("twn" :> Tw(500000, 200000, <<-U, 0>>, 0))
  @@ ("sw" :> [k |-> "sw", n |-> 3, wk |-> 8000000, L |-> 1178097, g |-> 200000, phi |-> <<960000, 280000>>, steps |-> <<>>])
  @@ ("trf" :> [k |-> "trf", wk |-> 6000000, L |-> 500000, g |-> 200000, phi |-> <<600000, 800000>>, th |-> <<800000, 600000>>, steps |-> <<>>])
  @@ ("sol" :> Sol(1000000, 800000)) @@ ("marker" :> [k |-> "marker", L |-> 0, steps |-> <<>>])
(* the bends follow the beam *)
Given(c, qq) == LET e == Elements[c] IN IF e.k = "bend" THEN [e EXCEPT !.b0 = qq * @] ELSE e
Can(set, c) == LET e == Elements[c] IN
  /\ (set = "thin" => ~(e.k = "mult" /\ e.L = 0))
  /\ (set = "symp" => e.k # "sol" /\ c # "off" /\ e.k # "trf")
  /\ (set \in {"thin", "smp"} => e.k # "sw") /\ (set = "smp" => e.k # "trf" /\ c \notin {"tw0", "twn"})
  /\ (set = "smp" => (e.k = "mult" => ~Above(e.f, 1)) /\ c # "bsk")
Splits(e) == IF e.L = 0 THEN <<e>> ELSE LET h == By(e.L, 2) IN <<[e EXCEPT !.steps = <<h, h>>], [e EXCEPT !.steps = <<By(e.L, 4), By(e.L, 4), h>>]>>
OnMom(qq, e) == e.k = "bend" => e.h = qq * e.b0
Bare(e) == CASE e.k = "mult" -> Len(e.f) = 1 /\ e.L > 0 /\ (e.f[1][1] = 1 \/ e.f[1][1] = 2) [] e.k = "bend" -> \A i \in 1..Len(e.f) : e.f[i][1] = 1 /\ e.f[i][3] = 0 [] Cavity(e) -> e.k = "tw" /\ e.full = 0 /\ e.phi[1] = 0 [] OTHER -> TRUE
Close(x, y, ks, t) == \A k \in ks : Abs(x[k] - y[k]) <= t + Abs(x[k]) \div 50000
At(set, qq, es, z, u) == Go(set, qq, es, Start(z, u))
D(z, u) == Start(z, u)
Om(x, y) == M(x[1], y[2]) - M(x[2], y[1]) + M(x[3], y[4]) - M(x[4], y[3])
Om6(x, y) == Om(x, y) + M(x[5], y[6]) - M(x[6], y[5])
E(i) == <<IF i = 1 THEN U ELSE 0, IF i = 2 THEN U ELSE 0, IF i = 3 THEN U ELSE 0, IF i = 4 THEN U ELSE 0, IF i = 5 THEN U ELSE 0, IF i = 6 THEN U ELSE 0>>
Ci(c) == Abs(c[1]) + Abs(c[2]) + Abs(c[3]) + Abs(c[4])
(* sums of first-order columns *)
Cols(set, qq, es, z) == LET C(i) == At(set, qq, es, z, E(i)).a IN <<C(1), C(2), C(3), C(4), C(5), C(6)>>
Symplectic(set, qq, es, six) ==
  \E R \in {Cols(set, qq, es, Z6)} : \A i \in 1..6 : \A k \in 1..(i - 1) :
     IF i <= 4 THEN Abs(M(Mtm(set, es, U), Om(R[k], R[i])) - Om(E(k), E(i))) <= 60 ELSE six => Abs(Om6(R[k], R[i]) - Om6(E(k), E(i))) <= 60
(* away from the axis as well: canonical momenta to all orders kept *)
Z == <<3000, -2000, 4000, 1000, 0, 0>>
SymplecticAway(qq, es) ==
  \E R \in {Cols("symp", qq, es, Z)} : \A i \in 1..4 : \A k \in 1..(i - 1) : Abs(Om(R[k], R[i]) - Om(E(k), E(i))) <= 60
(* backwards *)
FlipV(z) == <<z[1], -z[2], z[3], -z[4], -z[5], z[6]>>
Flip(i) == [c |-> FlipV(i.c), a |-> FlipV(i.a), b |-> FlipV(i.b)]
Mirror(e) == IF e.k = "bend" /\ e.faces = "both" THEN [e EXCEPT !.in = e.out, !.out = e.in] ELSE e
Returns(set, qq, e, u) ==
  \E w \in {Flip(Go(set, qq, <<Mirror(e)>>, Flip(At(set, qq, <<e>>, Z6, u))))} :
    /\ Close(w.c, Z6, 1..6, 10) /\ Close(w.a, u, 1..6, 60)
    /\ ((set = "trans" /\ ~(e.k = "mult" /\ Has(e.f, 0))) => Close(w.b, Z6, 1..6, 300))
Lone(set, e) == e.k = "tw" /\ ~Full(set, e)
(* the momenta grow by the voltages the particles see; transverse fields give no energy *)
RECURSIVE Seen(_, _)
Seen(es, i) == IF es = <<>> THEN <<0, 0, 0>> ELSE SA(Seen(Tail(es), i), IF es[1].k \in {"tw", "sw"} THEN SK(M(es[1].g, es[1].L), Wave(es[1], i)) ELSE <<0, 0, 0>>)
Voltage(set, qq, es, u) == \E o \in {At(set, qq, es, Z6, u)} :
  LET p == SK(Mtm(set, es, U), P1(o))  w == SA(P1(Start(Z6, u)), Seen(es, Start(Z6, u))) IN Abs(p[1] - w[1]) <= 20 /\ Abs(p[2] - w[2]) <= 40
Law(set, qq, es, e, u) ==
  /\ Assert((\A i \in 1..Len(es) : Cavity(es[i]) \/ es[i].k \in {"drift", "marker"}) => Voltage(set, qq, es, u), <<"voltage", set, es, u>>)
  /\ Assert(Bare(e) /\ OnMom(qq, e) => \A k \in 1..Len(Splits(e)) : LET x == At(set, qq, <<e>>, Z6, u)  y == At(set, qq, <<Splits(e)[k]>>, Z6, u) IN
              Close(x.c, y.c, 1..6, 20) /\ Close(x.a, y.a, 1..6, 40) /\ ((e.k = "mult" /\ Has(e.f, 2) => set = "trans") => Close(x.b, y.b, 1..6, 120)), <<"split", set, qq, e, u>>)
  /\ Assert(e.k = "mult" /\ e.L > 0 /\ Len(e.f) = 1 /\ e.f[1][1] = 1 /\ e.f[1][2] = 360000 =>
              (* 360000 - 480000 i = 600000 (0.894427 - 0.447214 i)^2 *)
              LET t == <<894427, 447214>>  x == At(set, qq, <<e>>, Z6, u)  y == Back(t, Go(set, qq, <<Qd(600000, 0)>>, Turn(t, Start(Z6, u)))) IN
              Close(x.a, y.a, 1..6, 40) /\ Close(x.b, y.b, 1..6, 80), <<"rotated", set, qq, e, u>>)
  (* slopes do not shrink where the reference is not followed: not both in a row *)
  /\ Assert(((\E i \in 1..Len(es) : Lone(set, es[i])) /\ \E i \in 1..Len(es) : Cavity(es[i]) /\ ~Lone(set, es[i])) \/ Symplectic(set, qq, es, set # "smp" /\ (\A i \in 1..Len(es) : ~Cavity(es[i])) /\ \A i \in 1..Len(es) : OnMom(qq, es[i]) /\ (es[i].k = "mult" => set = "symp" \/ ~Has(es[i].f, 0))), <<"symplectic", set, qq, es>>)
  /\ Assert(set = "symp" /\ (\A i \in 1..Len(es) : ~Cavity(es[i])) => SymplecticAway(qq, es), <<"symplectic away from the axis", qq, es>>)
  /\ Assert(set # "smp" /\ e.k # "sol" /\ ~Cavity(e) /\ OnMom(qq, e) => Returns(set, qq, e, u), <<"backwards", set, qq, e, u>>)
Turned == <<[m |-> <<20000, -10000, 5000, 30000, 0, 20000>>, s |-> <<<<90000>>, <<10000, 40000>>, <<0, -5000, 60000>>, <<20000, 0, 10000, 50000>>>>]>>
Op == IF s = "smp" THEN [op |-> "smp", set |-> s, els |-> els', P0 |-> 5, q |-> q, p |-> Turned] ELSE [op |-> "map", set |-> s, els |-> els', P0 |-> 5, q |-> q, z |-> Z6, v |-> v]
Init == /\ s \in Sets /\ q \in Charges /\ v \in Dirs /\ els = <<>> /\ j = Start(Z6, v)
Next == /\ Len(els) < N /\ UNCHANGED <<s, q, v>>
        /\ \E c \in {k \in Kinds : Can(s, k)} : \E e \in {Given(c, q)} :
             /\ els' = Append(els, e) /\ j' = At(s, q, els', Z6, v)
             /\ Law(s, q, els', e, v)
             /\ (IF Show THEN PrintT("SCRIPT" \o ToJson(<<Op>>)) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
