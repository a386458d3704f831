------------------------------ MODULE Ground ------------------------------
(* Ground motion: random walks of supports by the ATL law, along the line (one dimension) or in the plane, reproducible
   through the random streams. Offsets are vertical, in 1e-5. sup: positions <<s, x, z>>; y: offsets; m: the motions. *)
EXTENDS Rand
NoGround == [sup |-> <<>>, y |-> <<>>, m |-> <<>>]
RECURSIVE InsBy(_, _, _)
InsBy(sup, q, i) == IF q = <<>> THEN <<i>> ELSE IF Less(sup[i][1], sup[q[1]][1]) THEN <<i>> \o q ELSE <<q[1]>> \o InsBy(sup, Tail(q), i)
RECURSIVE ByArc(_, _)
ByArc(sup, q) == IF q = <<>> THEN <<>> ELSE InsBy(sup, ByArc(sup, SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN <<>> ELSE Append(Zeros(n - 1), 0)
RECURSIVE Places(_, _)
Places(sup, q) == IF q = <<>> THEN <<>> ELSE <<sup[q[1]]>> \o Places(sup, Tail(q))
(* a motion: its supports (in order of arc position for the line), A, noise, clock, seed; walk: displacements walked so far;
   past: what was requested since the start (where the walk cannot be told from the noise) *)
Motion(g, e) == [flat |-> e.flat, on |-> IF e.flat THEN e.on ELSE ByArc(g.sup, e.on), A |-> e.A, vib |-> IF e.flat THEN Zero ELSE e.vib, t |-> Zero,
                 seed |-> "0", walk |-> Zeros(Len(e.on)), past |-> <<>>, inc |-> FALSE, ref |-> e.ref]
Stream(m) == "ATL " \o m.seed
(* exact square roots *)
RECURSIVE ISqrt(_, _)
ISqrt(n, k) == IF k * k >= n THEN k ELSE ISqrt(n, k + 1)
Sqrt(r) == <<ISqrt(r[1], 0), ISqrt(r[2], 0)>>
IsSq(r) == r[1] >= 0 /\ (LET q == Sqrt(r) IN q[1] * q[1] = r[1] /\ q[2] * q[2] = r[2])
(* the variance A dT L of each support against the one before; the first against the origin *)
RECURSIVE Gaps(_, _, _, _)
Gaps(m, sup, dt, k) == IF k = 0 THEN <<>> ELSE Append(Gaps(m, sup, dt, k - 1), Mul(Mul(m.A, dt), Sub(sup[m.on[k]][1], IF k = 1 THEN Zero ELSE sup[m.on[k - 1]][1])))
RECURSIVE Sigmas(_)
Sigmas(v) == IF v = <<>> THEN <<>> ELSE <<Sqrt(v[1])>> \o Sigmas(Tail(v))
RECURSIVE AllSq(_)
AllSq(v) == v = <<>> \/ (IsSq(v[1]) /\ AllSq(Tail(v)))
RECURSIVE Same(_, _)
Same(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Same(x, n - 1)
RECURSIVE NonZero(_)
NonZero(v) == IF v = <<>> THEN <<>> ELSE <<v[1][1] # 0>> \o NonZero(Tail(v))
Noisy(m) == m.vib[1] # 0
(* what a step asks of the stream: units (displacements are multiples of them), and how the displacement is seen *)
Ask(m, g, dt) ==
  LET n == Len(m.on) IN
  IF ~m.flat THEN
    IF ~Noisy(m) /\ ~AllSq(Gaps(m, g.sup, dt, n)) THEN [q |-> <<"apart", Gaps(m, g.sup, dt, n)>>, unit |-> Same(One, n), see |-> "walk"]
    ELSE IF ~Noisy(m) THEN [q |-> <<"walk", NonZero(Gaps(m, g.sup, dt, n))>>, unit |-> Sigmas(Gaps(m, g.sup, dt, n)), see |-> "walk"]
    ELSE IF m.A[1] = 0 THEN [q |-> <<"shake", n>>, unit |-> Same(m.vib, n), see |-> "offset"]
    ELSE [q |-> <<"both", Gaps(m, g.sup, dt, n), m.vib, m.past>>, unit |-> Same(One, n), see |-> "offset"]
  ELSE IF m.inc THEN
    IF Mul(m.A, dt)[1] = 0 THEN [q |-> <<"rest", n>>, unit |-> Same(Zero, n), see |-> "more"]
    ELSE [q |-> <<"more", dt, Places(g.sup, m.on), m.ref>>, unit |-> Same(Sqrt(m.A), n), see |-> "more"]
  ELSE IF Noisy(m) THEN [q |-> <<"noisy", m.A, m.t, Places(g.sup, m.on), m.ref, m.vib>>, unit |-> Same(One, n), see |-> "offset"]
  ELSE IF m.A[1] = 0 THEN [q |-> <<"rest", n>>, unit |-> Same(Zero, n), see |-> "offset"]
  ELSE [q |-> <<"all", m.t, Places(g.sup, m.on), m.ref>>, unit |-> Same(Sqrt(m.A), n), see |-> "offset"]
(* the displacements seen, given the new offsets *)
RECURSIVE Seen(_, _, _, _, _)
Seen(m, g, see, ny, k) ==
  IF k = 0 THEN <<>> ELSE
  Append(Seen(m, g, see, ny, k - 1),
    CASE see = "offset" -> ny[m.on[k]]
      [] see = "more" -> ny[m.on[k]] - g.y[m.on[k]]
      [] OTHER -> (ny[m.on[k]] - m.walk[k]) - (IF k = 1 THEN 0 ELSE ny[m.on[k - 1]] - m.walk[k - 1]))
(* in units: a number of the stream, to 1e-5; where the unit is zero nothing moves *)
RECURSIVE InUnits(_, _)
InUnits(d, u) == IF d = <<>> THEN <<>> ELSE <<IF u[1][1] = 0 THEN 0 ELSE (d[1] * u[1][2]) \div u[1][1]>> \o InUnits(Tail(d), Tail(u))
Fits(z, d, u) == \A k \in 1..Len(d) : Near(d[k] * u[k][2], z[k] * u[k][1], 4 * u[k][2] + 2 * u[k][1])
OthersStay(m, g, ny) == \A i \in 1..Len(g.y) : (\E k \in 1..Len(m.on) : m.on[k] = i) \/ ny[i] = g.y[i]
RECURSIVE At(_, _)
At(y, q) == IF q = <<>> THEN <<>> ELSE <<y[q[1]]>> \o At(y, Tail(q))
Moved(m, g, s, dt, ny) == [m EXCEPT !.t = Add(@, dt), !.walk = IF ~m.flat /\ ~Noisy(m) THEN At(ny, m.on) ELSE @,
                                    !.past = IF ~m.flat /\ Noisy(m) /\ m.A[1] # 0 THEN Append(@, <<Key(s, Stream(m)), Gaps(m, g.sup, dt, Len(m.on))>>) ELSE @]
Stilled(m) == [m EXCEPT !.t = Zero, !.walk = Zeros(Len(m.on)), !.past = <<>>]
RECURSIVE Laid(_, _, _)
Laid(y, q, z) == IF q = <<>> THEN y ELSE Laid([y EXCEPT ![q[1]] = z], Tail(q), z)
(* the variance of the distance between two supports, or of one against the origin *)
SqD(p, q) == LET a == Sub(p[2], q[2]) b == Sub(p[3], q[3]) IN Add(Mul(a, a), Mul(b, b))
Var(m, g, e) ==
  LET p == g.sup[e.a] q == IF e.b = 0 THEN (IF m.flat THEN <<Zero, m.ref[1], m.ref[2]>> ELSE <<Zero, Zero, Zero>>) ELSE g.sup[e.b]
      L == IF m.flat THEN Sqrt(SqD(p, q)) ELSE AbsR(Sub(p[1], q[1])) IN
  Add(Mul(Mul(m.A, e.dt), L), Mul(IF e.b = 0 THEN One ELSE I(2), Mul(m.vib, m.vib)))
===========================================================================
