----------------------------- MODULE TraceMaps -----------------------------
EXTENDS Elems, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Ok(what, c, info) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, info>>) /\ FALSE
(* to a few parts in a hundred thousand *)
Near(x, y, t) == Abs(x - y) <= t + Abs(x) \div 20000
NearV(x, y, ks, t) == \A k \in ks : Near(x[k], y[k], t)
(* what is left of the third order away from the axis *)
Cubic(c) == M(c[1], c[1]) + M(c[2], c[2]) + M(c[3], c[3]) + M(c[4], c[4])
Map(e) ==
  \E j \in {Go(e.set, e.q, e.els, Start(e.z, e.v))} :
  LET ks == (1..6) \ (IF Timed(e.set, e.els) THEN {} ELSE {5}) IN
  /\ Ok("position", NearV(j.c, e.c, ks, 40), <<j.c, e.c>>)
  /\ Ok("first order", NearV(j.a, e.a, ks, 60 + 40 * Cubic(j.c)), <<j.a, e.a>>)
  /\ Ok("second order", Second(e.set, e.els) /\ (\A k \in 1..4 : j.c[k] = 0) => NearV(j.b, e.b, ks, 150), <<j.b, e.b>>)
  /\ Ok("reference", Near(Mtm(e.set, e.els, U) - U, e.dP, 3) /\ Near(Length(e.els), e.T, 2), <<Mtm(e.set, e.els, U), e.dP, e.T>>)
(* macroparticles: the centroids, and the second moments by the first-order map *)
Dirs == <<<<U, 0, 0, 0, 0, 0>>, <<0, U, 0, 0, 0, 0>>, <<0, 0, U, 0, 0, 0>>, <<0, 0, 0, U, 0, 0>>>>
Sg(s, m, n) == IF m < n THEN s[n][m] ELSE s[m][n]
RECURSIVE Acc(_, _, _, _, _)
(* sum over m, n from 1 to 4 of R[i][m] s[m][n] R[j][n]; R by columns *)
Acc(R, s, i, j, c) == IF c = 16 THEN 0 ELSE LET m == c \div 4 + 1  n == c - 4 * (c \div 4) + 1 IN M(M(R[m][i], Sg(s, m, n)), R[n][j]) + Acc(R, s, i, j, c + 1)
Macro(e, p, g) ==
  \E j \in {<<Go("smp", e.q, e.els, Start(p.m, Dirs[1])), Go("smp", e.q, e.els, Start(p.m, Dirs[2])), Go("smp", e.q, e.els, Start(p.m, Dirs[3])), Go("smp", e.q, e.els, Start(p.m, Dirs[4]))>>} :
  \E R \in {<<j[1].a, j[2].a, j[3].a, j[4].a>>} :
  /\ Ok("centroid", NearV(j[1].c, g.m, 1..6, 40), <<j[1].c, g.m>>)
  /\ \A m \in 1..4 : \A n \in 1..m : Ok("moment", Near(Acc(R, p.s, m, n, 0), g.s[m][n], 80), <<m, n, Acc(R, p.s, m, n, 0), g.s[m][n]>>)
Smp(e) ==
  /\ Ok("macroparticles", Len(e.p) = Len(e.got), <<e.p, e.got>>)
  /\ \A i \in 1..Len(e.p) : Macro(e, e.p[i], e.got[i])
  /\ Ok("reference", Near(Mtm(e.set, e.els, U) - U, e.dP, 3) /\ Near(Length(e.els), e.T, 2), <<Mtm(e.set, e.els, U), e.dP, e.T>>)
Step(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "map" -> Map(e)
    [] e.op = "smp" -> Smp(e)
    [] OTHER -> Ok("unknown operation", FALSE, e)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
