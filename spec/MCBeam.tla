------------------------------- MODULE MCBeam -------------------------------
(* beams of a grid; the matrices are symplectic and keep the emittances *)
EXTENDS Beam, Json, TLC
CONSTANTS Deep, Show
VARIABLES b
H == <<1, 2>>
Cs == {<<<<Zero, Zero, Zero, Zero>>, <<One, Zero, "cos">>>>, <<<<Zero, One, One, Zero>>, <<<<4, 5>>, <<3, 5>>, "cos">>>>, <<<<One, I(2), One, One>>, <<<<3, 5>>, <<-4, 5>>, "cos">>>>, <<<<One, Zero, Zero, One>>, <<<<5, 4>>, <<3, 4>>, "cosh">>>>}
Beams == {[bx |-> bx, by |-> by, ax |-> ax, ay |-> H, ex |-> ex, ey |-> One, sdp |-> H, sz |-> sz, c |-> <<c, Zero, Neg(c), One, c>>, P0 |-> I(5), Q |-> I(-2), D |-> d, C |-> k[1], cs |-> k[2]] :
           bx \in {One, I(2)}, by \in (IF Deep THEN {H, I(4)} ELSE {H}), ax \in {Zero, I(-1)}, ex \in {I(2), H}, sz \in (IF Deep THEN {Zero, One} ELSE {One}), c \in {Zero, H},
           d \in {<<Zero, Zero, Zero, Zero>>, <<One, Zero, Neg(H), One>>}, k \in Cs}
J(i, j) == IF <<i, j>> \in {<<1, 2>>, <<3, 4>>} THEN One ELSE IF <<i, j>> \in {<<2, 1>>, <<4, 3>>} THEN I(-1) ELSE Zero
Same(x, y) == IsBad(x) \/ IsBad(y) \/ x = y
(* the transpose of m, times J, times m *)
RECURSIVE Pair(_, _, _, _)
Pair(m, i, j, k) == IF k > 4 THEN Zero ELSE LET o == IF k % 2 = 1 THEN k + 1 ELSE k - 1 IN Add(Mul(Mul(m[k][i], J(k, o)), m[o][j]), Pair(m, i, j, k + 1))
U(i) == [k \in 1..6 |-> IF k = i THEN One ELSE Zero]
Law(x) ==
  \E m \in {Normal(x)} : \E s \in {Sigma(x)} :
  /\ \A i, j \in 1..4 : Same(Pair(m, i, j, 1), J(i, j))
  /\ \A i, j \in 1..6 : Same(s[i][j], s[j][i])
  (* the moments are those of particles at the ends of the normal axes *)
  /\ \A i, j \in 1..6 : \E v \in {[k \in 1..6 |-> App(m, Times(Sizes(x), U(k)), 1)]} :
       Same(s[i][j], Add(Add(Add(Mul(v[1][i], v[1][j]), Mul(v[2][i], v[2][j])), Add(Mul(v[3][i], v[3][j]), Mul(v[4][i], v[4][j]))), Add(Mul(v[5][i], v[5][j]), Mul(v[6][i], v[6][j]))))
  (* without coupling and dispersion each plane has its emittance; with dispersion it has no less *)
  /\ (x.cs[2] = Zero /\ x.D[1] = Zero => Same(Det2(s, 1, 2), Sq(Sq(x.ex))) /\ Same(Det2(s, 3, 4), Sq(Sq(x.ey))))
  /\ (x.cs[2] = Zero => LET d == Det2(s, 1, 2) IN IsBad(d) \/ ~Less(d, Sq(Sq(x.ex))))
  (* the sum of the second invariants of the planes is that of the modes *)
  /\ (x.D[1] = Zero => LET c == Sub(Mul(s[1][3], s[2][4]), Mul(s[1][4], s[2][3])) IN
        Same(Add(Add(Det2(s, 1, 2), Det2(s, 3, 4)), Mul(I(2), c)), Add(Sq(Sq(x.ex)), Sq(Sq(x.ey)))))
Init == b = <<>>
Next == \E x \in Beams : /\ b = <<>> /\ b' = x /\ Assert(Law(x), <<"law", x>>)
                         /\ (IF Show THEN PrintT("SCRIPT" \o ToJson(<<[op |-> "sigma", beam |-> x], [op |-> "generate", beam |-> x, p |-> <<[v |-> U(1), id |-> 3], [v |-> <<One, Neg(H), Zero, One, One, One>>, id |-> 0], [v |-> <<Zero, Zero, One, H, Zero, I(-1)>>, id |-> 0]>>, n |-> 4, filter |-> "", lim |-> One, orb |-> Zero]>>)) ELSE TRUE)
Spec == Init /\ [][Next]_b
=============================================================================
