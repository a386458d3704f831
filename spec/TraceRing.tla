----------------------------- MODULE TraceRing -----------------------------
EXTENDS Ring, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, r
Ok(what, c, info) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, info>>) /\ FALSE
Near(x, y, t) == Abs(x - y) <= t + Abs(x) \div 20000
NearV(x, y, ks, t) == \A k \in ks : Near(x[k], y[k], t)
Size(v) == Abs(v[1]) + Abs(v[2]) + Abs(v[3]) + Abs(v[4])
Fin(v, n) == Ok("size", \A k \in 1..Len(v) : Abs(v[k]) <= n * U, v)
Closed(es, z, ks) == Fin(z, 1) /\ \E j \in {Along(es, z, Z6)} : Ok("closed", NearV(j.c, z, ks, 150), <<j.c, z>>)
Orbit(e) ==
  /\ Closed(From(r.els, e.n), e.got, 1..(IF e.six THEN 6 ELSE 4))
  /\ Ok("energy", e.six \/ e.got[6] = e.dp, <<e.dp, e.got>>)
Columns(es, e) == (\A k \in 1..6 : Fin(e.M[k], 40)) /\ \E R \in {Cols6(es, e.z)} : \A k \in 1..6 : Ok("column", NearV(R[k], e.M[k], 1..6, 100 + Size(R[k]) \div 10000), <<k, R[k], e.M[k]>>)
Tm(e) == Closed(From(r.els, e.n), e.z, 1..6) /\ Columns(From(r.els, e.n), e)
Part(e) == Columns(SubSeq(r.els, e.n1 + 1, e.n2 + 1), e)
Between(e) == Closed(From(r.els, e.n1), e.z, 1..6) /\ Part(e)
Same(d, z, v) == Fin(d, 40) /\ Ok("dispersion", NearV(v, d, 1..4, 150 + (Abs(d[1]) + Abs(d[3])) \div 5000), <<v, d>>)
Disp(e) ==
  /\ Fin(e.d, 40)
  /\ Closed(From(r.els, e.n), e.z, 1..4)
  /\ \E v \in {Along(From(r.els, e.n), e.z, <<e.d[1], e.d[2], e.d[3], e.d[4], 0, U>>).a} : Same(e.d, e.z, v)
(* base points and directions at the start and after each component *)
RECURSIVE Follow(_, _), Sq(_, _, _, _), Mid(_, _, _, _), Len0(_, _), Wraps(_, _, _)
Follow(es, j) == <<j>> \o (IF es = <<>> THEN <<>> ELSE LET i == One(es[1], j) IN Follow(Tail(es), i))
Len0(es, n) == IF n = 0 THEN 0 ELSE es[n].L + Len0(es, n - 1)
(* integrals of the squares: of the values at the ends; of the mean of those *)
Sq(es, w, n, k) == IF n > Len(es) THEN 0 ELSE M(es[n].L, By(M(w[n].a[k], w[n].a[k]) + M(w[n + 1].a[k], w[n + 1].a[k]), 2)) + Sq(es, w, n + 1, k)
Mid(es, w, n, k) == IF n > Len(es) THEN 0 ELSE LET a == By(10 * (w[n].c[k] + w[n + 1].c[k]), 2) IN M(es[n].L, M(a, a)) + Mid(es, w, n + 1, k)
Rms(e) ==
  /\ Fin(e.d, 40) /\ Fin(e.z, 1) /\ Fin(e.rms, 12) /\ \A n \in 1..Len(e.file) : Ok("printed", Len(e.file[n]) = 3, e.file[n]) /\ Fin(<<e.file[n][2], e.file[n][3]>>, 40)
  /\ \E w \in {Follow(r.els, Start(e.z, <<e.d[1], e.d[2], e.d[3], e.d[4], 0, U>>))} :
    /\ Same(e.d, e.z, w[Len(w)].a)
    /\ \A k \in {1, 2} : Ok("rms dispersion", Near(Sq(r.els, w, 1, 2 * k - 1), M(Len0(r.els, Len(r.els)), M(e.rms[k], e.rms[k])), 400), <<k, Sq(r.els, w, 1, 2 * k - 1), e.rms>>)
    /\ Ok("printed", Len(e.file) = Len(r.els) /\ \A n \in 1..Len(r.els) : Near(e.file[n][2], w[n + 1].a[1], 200) /\ Near(e.file[n][3], w[n + 1].a[3], 200), <<e.file, w>>)
RmsOrbit(e) ==
  /\ Fin(e.rms, 1)
  /\ \E w \in {Follow(r.els, Start(e.z, Z6))} :
    \A k \in 1..4 : Ok("rms orbit", Near(Mid(r.els, w, 1, k), M(Len0(r.els, Len(r.els)), M(10 * e.rms[k], 10 * e.rms[k])), 400), <<k, Mid(r.els, w, 1, k), e.rms>>)
Orbits(e) ==
  LET n == Len(r.els) IN
  /\ Ok("rows", Len(e.rows) = n, e.rows)
  /\ \A k \in 1..n : Fin(e.rows[k].z, 1) /\ Fin(<<e.rows[k].s>>, 100)
  /\ Ok("s", \A k \in 1..n : Near(e.rows[k].s, Len0(r.els, k - 1), 2), e.rows)
  /\ \E w \in {Follow(r.els, Start(<<e.rows[1].z[1], e.rows[1].z[2], e.rows[1].z[3], e.rows[1].z[4], 0, e.dp>>, Z6))} :
       /\ \A k \in 1..n : Ok("orbit", NearV(w[k].c, e.rows[k].z, 1..4, 60), <<k, w[k].c, e.rows[k].z>>)
       /\ Ok("closed", NearV(w[n + 1].c, w[1].c, 1..6, 150), w)
-----------------------------------------------------------------------------
Shape(what, s, t, tol) == \A i \in 1..4 : \A k \in 1..i : Ok(what, Abs(s[i][k] - t[i][k]) <= tol + (Abs(s[i][k]) + Abs(s[i][i]) \div 10 + Abs(s[k][k]) \div 10) \div 5000, <<i, k, s, t>>)
S4(t) == Full4(t)
Rows(es, rows, k) == \* from the k-th row to the next
  \E j \in {Along(<<es[k]>>, rows[k].z, Z6)} : \E R \in {Cols(<<es[k]>>, rows[k].z)} :
    /\ Ok("s", Near(rows[k + 1].s, rows[k].s + es[k].L, 2), rows[k + 1].s)
    /\ Ok("orbit", NearV(j.c, rows[k + 1].z, 1..6, 60), <<k, j.c, rows[k + 1].z>>)
    /\ Shape("first mode", Carried(R, S4(rows[k].s1)), S4(rows[k + 1].s1), 60)
    /\ Shape("second mode", Carried(R, S4(rows[k].s2)), S4(rows[k + 1].s2), 60)
RECURSIVE Phases(_, _, _, _)
Angle(R, row0, row, m) ==
  LET s == S4(IF m = 1 THEN row0.s1 ELSE row0.s2)  t == Turned(R, s, 2 * m - 1)  c == row.cs[m]  size == Abs(t[1]) + Abs(t[2]) IN
  /\ Ok("phase", Abs(M(c[1], t[2]) - M(c[2], t[1])) <= 200 + size \div 2000 /\ M(c[1], t[1]) + M(c[2], t[2]) > 0, <<m, c, t>>)
  /\ Ok("turns", -5 <= row.mu[m] /\ row.mu[m] <= U, <<m, row.mu>>)
Phases(es, rows, k, R) ==
  /\ Angle(R, rows[1], rows[k], 1) /\ Angle(R, rows[1], rows[k], 2)
  /\ (IF k = Len(rows) THEN TRUE ELSE \E Q \in {OnAll(Cols(<<es[k]>>, rows[k].z), R)} : Phases(es, rows, k + 1, Q))
Twiss(e) ==
  LET n == Len(r.els)  a == e.rows[1]  z == e.rows[n + 1] IN
  /\ Ok("rows", Len(e.rows) = n + 1 /\ e.size[1] = n + 1, e.size)
  /\ \A k \in 1..(n + 1) : Fin(e.rows[k].z, 1) /\ Fin(e.rows[k].s1, 10) /\ Fin(e.rows[k].s2, 10) /\ Fin(e.rows[k].d, 40) /\ Fin(e.rows[k].mu, 2) /\ Fin(<<e.rows[k].s>>, 100) /\ Fin(e.rows[k].cs[1], 2) /\ Fin(e.rows[k].cs[2], 2)
  /\ Ok("starts", a.s = 0 /\ a.z[5] = 0 /\ a.z[6] = 0 /\ a.mu[1] = 0 /\ a.mu[2] = 0, a)
  /\ \A k \in 1..n : Rows(r.els, e.rows, k)
  /\ Ok("closed", NearV(a.z, z.z, 1..4, 60), <<a.z, z.z>>)
  /\ Shape("first mode closes", S4(a.s1), S4(z.s1), 60) /\ Shape("second mode closes", S4(a.s2), S4(z.s2), 60)
  /\ Ok("area", Abs(Norm(S4(a.s1)) + 20000) <= 100 /\ Abs(Norm(S4(a.s2)) + 20000) <= 100, <<Norm(S4(a.s1)), Norm(S4(a.s2))>>)
  /\ \E w \in {Sand(S4(a.s1), S4(a.s2))} : Ok("modes apart", \A i \in 1..4 : \A k \in 1..4 : Abs(w[i][k]) <= 60, w)
  /\ Ok("planes", Flat4(r.els) /\ a.z = Z6 => a.s1[6] = 0 /\ a.s2[1] = 0, a)
  /\ Phases(r.els, e.rows, 1, T(<<E1, E2, E3, E4>>))
  /\ (IF e.third THEN \E w \in {Follow(r.els, Start(a.z, <<a.d[1], a.d[2], a.d[3], a.d[4], 0, U>>))} :
        \A k \in 1..(n + 1) : Ok("dispersion", NearV(w[k].a, e.rows[k].d, 1..4, 250 + (Abs(w[k].a[1]) + Abs(w[k].a[3])) \div 5000), <<k, w[k].a, e.rows[k].d>>) ELSE TRUE)
(* sums over a table that has been calculated *)
Last(n, a, b) == IF b >= n \/ b < a THEN n - 1 ELSE b
RECURSIVE Trap(_, _, _), Trap2(_, _, _)
Trap(t, k, m) == IF k = m THEN 0 ELSE M(t[k + 1][1] - t[k][1], By(t[k][2] + t[k + 1][2], 2)) + Trap(t, k + 1, m)
Trap2(t, k, m) == IF k = m THEN 0 ELSE M(t[k + 1][1] - t[k][1], By(M(By(t[k][2], 8), By(t[k][2], 8)) + M(By(t[k + 1][2], 8), By(t[k + 1][2], 8)), 2)) + Trap2(t, k + 1, m)
Stats(e) ==
  LET a == IF e.n1 < 0 THEN 0 ELSE e.n1  b == Last(Len(e.table), a, e.n2)  len == e.table[b + 1][1] - e.table[a + 1][1] IN
  IF a >= Len(e.table) \/ len = 0 THEN TRUE ELSE
  /\ Fin(<<e.mean, e.rms>>, 100) /\ \A k \in 1..Len(e.table) : Fin(e.table[k], 100)
  /\ Ok("mean", Near(Trap(e.table, a + 1, b + 1), M(len, e.mean), 200), <<a, b, e.mean>>)
  /\ Ok("rms", Near(Trap2(e.table, a + 1, b + 1), M(len, M(By(e.rms, 8), By(e.rms, 8))), 200 + Abs(e.rms) \div 100), <<a, b, e.rms>>)
At(e) == LET J == {k \in 0..Len(r.els) : Len0(r.els, k) >= e.s} IN
  Ok("index", e.got = (IF J = {} THEN -1 ELSE CHOOSE k \in J : \A i \in J : k <= i), e)
(* whole turns in the rows up to the n-th (from 0) *)
Wraps(mu, m, n) == IF n = 0 THEN 0 ELSE (IF mu[n + 1][m] < mu[n][m] - 100 THEN 1 ELSE 0) + Wraps(mu, m, n - 1)
Adv(mu, m, n) == mu[n + 1][m] + U * Wraps(mu, m, n)
Sure(mu, m) == \A i \in 1..Len(mu) : Abs(mu[i][m]) <= 2 \/ (mu[i][m] > 1000 /\ mu[i][m] < 999000)
Phase(e) == LET m == IF e.h THEN 1 ELSE 2 IN Sure(e.mu, m) => Ok("phase advance", Abs(e.got - (Adv(e.mu, m, e.n2) - Adv(e.mu, m, e.n1))) <= 5, <<e, Adv(e.mu, m, e.n1), Adv(e.mu, m, e.n2)>>)
Tune(R, i, cs, d, g) ==
  Ok("tune", Abs(2 * cs[1] - Tr(R, i)) <= 4000 /\ (cs[2] > 0 <=> R[i + 1][i] > 0) /\ (g => Abs(d) <= 100), <<Tr(R, i), R, cs, d>>)
Tunes(e) == \E R \in {Cols(r.els, Z6)} : Tune(R, 1, e.x, e.dx, e.diff) /\ Tune(R, 3, e.y, e.dy, e.diff)
Step(e) ==
  CASE e.op \in {"reset", "ring"} -> TRUE
    [] e.op = "orbit" -> Orbit(e)
    [] e.op = "tm" -> Tm(e)
    [] e.op = "part" -> Part(e)
    [] e.op = "between" -> Between(e)
    [] e.op = "disp" -> Disp(e)
    [] e.op = "rms" -> Rms(e)
    [] e.op = "rmsorbit" -> RmsOrbit(e)
    [] e.op = "orbits" -> Orbits(e)
    [] e.op = "twiss" -> Twiss(e)
    [] e.op = "stats" -> Stats(e)
    [] e.op = "at" -> At(e)
    [] e.op = "phase" -> Phase(e)
    [] e.op = "tunes" -> Tunes(e)
    [] OTHER -> Ok("unknown operation", FALSE, e)
TraceInit == l = 1 /\ r = [els |-> <<>>]
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ r' = (IF Trace[l].op = "ring" THEN Trace[l] ELSE r)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, r>>
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
