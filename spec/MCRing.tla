------------------------------- MODULE MCRing -------------------------------
(* every short ring from an alphabet. Told of what the specification says of rings: the trace of one turn does not depend
   on where it begins; what a turn leaves unchanged in a plane, and the dispersion, are carried around the ring onto
   themselves; areas of shapes and of the modes are kept by components of all kinds, coupled or not; the angles by which
   a shape turns add up along the row. Clearly stable flat rings are replayed with every question. *)
EXTENDS Ring, Json, TLC
CONSTANTS N, Kinds, What
VARIABLES els
Mult(L, f) == [k |-> "mult", L |-> L, f |-> f, steps |-> <<>>]
Bend(L, h, f) == [k |-> "bend", L |-> L, h |-> h, b0 |-> h, f |-> f, tilt |-> <<U, 0>>, faces |-> "none", in |-> <<>>, out |-> <<>>, steps |-> <<>>]
Elements ==
  ("drift" :> [k |-> "drift", L |-> 1000000, steps |-> <<>>]) @@ ("qf" :> Mult(500000, <<<<1, 2000000, 0>>>>)) @@ ("qd" :> Mult(400000, <<<<1, -2200000, 0>>>>))
  @@ ("bend" :> Bend(500000, 500000, <<>>)) @@ ("cf" :> Bend(1000000, -200000, <<<<1, 300000, 0>>>>)) @@ ("cor" :> Mult(200000, <<<<0, 3000, -2000>>>>))
  @@ ("skew" :> Mult(200000, <<<<1, 0, 600000>>>>)) @@ ("sol" :> [k |-> "sol", L |-> 500000, ks |-> 700000, steps |-> <<>>]) @@ ("marker" :> [k |-> "marker", L |-> 0, steps |-> <<>>])
Is(es, k) == \E i \in 1..Len(es) : es[i].k = k
Kicked(es) == \E i \in 1..Len(es) : es[i].k = "mult" /\ es[i].f[1][1] = 0
Close(x, y, t) == \A k \in 1..Len(x) : Abs(x[k] - y[k]) <= t + Abs(x[k]) \div 20000
(* two shapes in units of 10, crossed with each other *)
Some == <<<<200000, -30000, 10000, 0>>, <<-30000, 100000, 0, 5000>>, <<10000, 0, 150000, 20000>>, <<0, 5000, 20000, 80000>>>>
Add(a, b) == <<M(a[1], b[1]) - M(a[2], b[2]), M(a[1], b[2]) + M(a[2], b[1])>>
Small(R) == \A i \in 1..4 : \A k \in 1..4 : Abs(R[i][k]) <= 8000000
Along1(es, R1) == (* the ring that begins one component later *)
  LET e == es[1]  n == Tail(es) \o <<e>> IN
  \E Q \in {Cols(n, Z6)} : \E E \in {Cols(<<e>>, Z6)} :
    /\ Assert(Kicked(es) \/ Abs(Tr(R1, 1) + Tr(R1, 3) - Tr(Q, 1) - Tr(Q, 3)) <= 100, <<"trace", es>>)
    /\ (IF Small(R1) /\ Small(Q) THEN
         /\ Assert(Kicked(<<e>>) \/ Abs(Norm(Some) - Norm(Carried(E, Some))) <= 40, <<"area", e, Norm(Some), Norm(Carried(E, Some))>>)
         /\ (IF Flat4(es) /\ ~Kicked(es) THEN
              /\ Assert(\A i \in {1, 3} : Abs(Tr(R1, i) - Tr(Q, i)) <= 60, <<"trace of a plane", es>>)
              /\ Assert(\A i \in {1, 3} : Close(Carry2(E, i, Inv2(R1, i)), Inv2(Q, i), 100), <<"carried", es>>)
              /\ Assert(LET D(r, S) == Disp2(r, Along(S, Z6, E6).a, 1)  t == 2 * U - Tr(R1, 1)  w == Along(<<e>>, Z6, E6).a  d == D(R1, es) IN
                          Close(<<M(E[1][1], d[1]) + M(E[2][1], d[2]) + M(t, w[1]), M(E[1][2], d[1]) + M(E[2][2], d[2]) + M(t, w[2])>>, D(Q, n), 150), <<"dispersion", es>>)
            ELSE TRUE) ELSE TRUE)
(* turning by the first component and by the rest is turning by all of them; the length of what has turned is kept *)
Turns(es, R1) ==
  \E E \in {Cols(<<es[1]>>, Z6)} : \E W \in {Cols(Tail(es), Z6)} : \A m \in {1, 3} :
    IF ~Flat4(es) \/ Kicked(es) THEN TRUE ELSE
    LET p == <<<<200000, -30000>>, <<-30000, 54500>>>> (* area 100000 squared in units of 10 *)
        f == <<<<p[1][1], p[1][2], 0, 0>>, <<p[2][1], p[2][2], 0, 0>>, <<0, 0, p[1][1], p[1][2]>>, <<0, 0, p[2][1], p[2][2]>>>>
        a == Turned(E, f, m)  g == Carried(E, f)  b == Turned(W, g, m)  c == Turned(R1, f, m)  x == Add(a, b) IN
    Assert(Abs(M(x[1], c[2]) - M(x[2], c[1])) <= 300 + (Abs(x[1]) + Abs(x[2])) \div 1000, <<"angles", m, es, x, c>>)
(* stable, the modes apart *)
Good(es, R) == /\ Flat4(es) /\ \A i \in {1, 3} : Abs(Tr(R, i)) <= 1850000
               /\ Abs(Tr(R, 1) - Tr(R, 3)) > 80000 /\ \A i \in 1..4 : Abs(R[i][IF i % 2 = 0 THEN i - 1 ELSE i + 1]) < 9000000
               /\ (Kicked(es) => Is(es, "bend"))
Each(n, F(_)) == LET H[i \in 0..n] == IF i = 0 THEN <<>> ELSE H[i - 1] \o <<F(i - 1)>> IN H[n]
Away == <<3000, -2000, 1000, 4000, 0, 1000>>
Ask(n, es) ==
  IF What = "optics" THEN
    Each(n, LAMBDA i : [op |-> "orbit", n |-> i, six |-> FALSE, dp |-> 1000 * i]) \o Each(n, LAMBDA i : [op |-> "disp", n |-> i])
    \o Each(n, LAMBDA i : [op |-> "part", n1 |-> 0, n2 |-> i, z |-> Away]) \o (IF Kicked(es) THEN <<>> ELSE Each(n, LAMBDA i : [op |-> "tm", n |-> i, only |-> FALSE]) \o <<[op |-> "orbits"]>>)
    \o <<[op |-> "rms"], [op |-> "rmsorbit", z |-> Away]>>
  ELSE <<[op |-> "twiss", third |-> FALSE, sym |-> FALSE]>> \o Each(n + 1, LAMBDA i : [op |-> "phase", n1 |-> i \div 2, n2 |-> i, h |-> i % 2 = 0, by |-> "index"])
    \o Each(n, LAMBDA i : [op |-> "stats", f |-> IF i % 2 = 0 THEN <<1, 1, 1>> ELSE <<3, 3, 2>>, n1 |-> i \div 2, n2 |-> i]) \o Each(n, LAMBDA i : [op |-> "at", s |-> i * 400000 + 7])
Init == els = <<>>
Next == /\ Len(els) < N
        /\ \E c \in Kinds : els' = Append(els, Elements[c])
        /\ \E R \in {Cols(els', Z6)} :
             /\ Along1(els', R) /\ (Small(R) => Turns(els', R))
             /\ (IF Len(els') > 1 /\ Good(els', R) THEN PrintT("SCRIPT" \o ToJson(<<[op |-> "ring", els |-> els', P0 |-> 5]>> \o Ask(Len(els'), els'))) ELSE TRUE)
Spec == Init /\ [][Next]_els
=============================================================================
