------------------------------- MODULE Diag -------------------------------
(* monitors and their buffers (K04).
   mon: [ty, len, mp, u (the wire's unit vector), uu (its squares and product),
         bufs, on, refl, sx, sy, rx, ry, ru, resp, srv (the server's buffers it feeds)]
   g: [def |-> default buffers, off, noise]; bunch: [p |-> particles <<x, xp, y, yp>>, ct] *)
EXTENDS Rat, FiniteSets
Monitor0(ty, len, mp, u, uu) == [ty |-> ty, len |-> len, mp |-> mp, u |-> u, uu |-> uu, bufs |-> {}, on |-> TRUE, refl |-> FALSE,
                            sx |-> One, sy |-> One, rx |-> Zero, ry |-> Zero, ru |-> Zero, resp |-> 0, srv |-> {}]
(* responses 1 and 2: v -> a v + b in x, a v - b in y *)
RespA(r) == CASE r = 1 -> I(2) [] r = 2 -> I(-1) [] OTHER -> One
RespB(r) == CASE r = 1 -> One [] r = 2 -> <<1, 2>> [] OTHER -> Zero
RECURSIVE SumP(_, _, _), SumXY(_, _, _, _, _)
At(p, i, s) == IF i = 1 THEN Add(p[1], Mul(s, p[2])) ELSE Add(p[3], Mul(s, p[4]))
SumP(ps, i, k) == IF k > Len(ps) THEN Zero ELSE Add(ps[k][i], SumP(ps, i, k + 1))
(* the particles' transverse positions after a drift of s *)
RECURSIVE Drifted(_, _, _)
Drifted(ps, s, k) == IF k > Len(ps) THEN <<>> ELSE <<<<At(ps[k], 1, s), At(ps[k], 2, s)>>>> \o Drifted(ps, s, k + 1)
Mean(xy, i) == Div(SumP(xy, i, 1), I(Len(xy)))
SumXY(xy, i, j, m, k) == IF k > Len(xy) THEN Zero ELSE Add(Mul(Sub(xy[k][i], m[i]), Sub(xy[k][j], m[j])), SumXY(xy, i, j, m, k + 1))
Cov(xy, i, j, m) == Div(SumXY(xy, i, j, m, 1), I(Len(xy)))
Def(g, m) == IF g.def[m.ty] = 0 THEN {} ELSE {g.def[m.ty]}
Targets(g, m) == IF m.on /\ ~g.off THEN m.bufs \cup Def(g, m) ELSE {}
Noisy(g, m, r) == r # Zero /\ (m.ty = "RMS" \/ g.noise)
Veil(b, v) == IF b THEN Bad ELSE v
BpmVal(m, v, i) == LET w == Mul(IF i = 1 THEN m.sx ELSE m.sy, v) IN
                   IF i = 1 THEN Add(Mul(RespA(m.resp), w), RespB(m.resp)) ELSE Sub(Mul(RespA(m.resp), w), RespB(m.resp))
(* along the wire: u = x cos - y sin; a wire at a right angle reads y *)
AlongU(u, c) == IF u = <<Zero, One>> THEN c[2] ELSE Sub(Mul(u[1], c[1]), Mul(u[2], c[2]))
Plain(m, xy) ==
  LET c == <<Mean(xy, 1), Mean(xy, 2)>> IN
  IF m.ty = "BPM" THEN <<BpmVal(m, c[1], 1), BpmVal(m, c[2], 2)>>
  ELSE LET vx == Cov(xy, 1, 1, c)  vy == Cov(xy, 2, 2, c)  cv == Cov(xy, 1, 2, c) IN
       <<c[1], c[2], AlongU(m.u, c), vx, vy,
         Sub(Add(Mul(m.uu[1], vx), Mul(m.uu[2], vy)), Mul(I(2), Mul(m.uu[3], cv)))>>
Data(g, m, xy, ct) ==
  LET p == Plain(m, xy) IN
  IF m.ty = "BPM" THEN <<Veil(Noisy(g, m, m.rx), p[1]), Veil(Noisy(g, m, m.ry), p[2]), m.rx, m.ry, ct>>
  ELSE LET n == <<Noisy(g, m, m.rx), Noisy(g, m, m.ry), Noisy(g, m, m.ru)>> IN
       <<Veil(n[1], p[1]), Veil(n[2], p[2]), Veil(n[3], p[3]), Veil(n[1], p[4]), Veil(n[2], p[5]), Veil(n[3], p[6]), m.rx, m.ry, m.ru, m.rx, m.ry, m.ru>>
(* the records of one passage: by buffer, and within a buffer as the monitors come *)
RECURSIVE RecB(_, _, _, _, _), RecAll(_, _, _, _)
RecB(g, mons, ps, b, k) == IF k > Len(ps) THEN <<>> ELSE
  (IF b \in Targets(g, mons[ps[k].m]) THEN <<<<b, ps[k].m, Data(g, mons[ps[k].m], ps[k].xy, ps[k].ct)>>>> ELSE <<>>) \o RecB(g, mons, ps, b, k + 1)
RecAll(g, mons, ps, b) == IF b > 4 THEN <<>> ELSE RecB(g, mons, ps, b, 1) \o RecAll(g, mons, ps, b + 1)
Records(g, mons, ps) == RecAll(g, mons, ps, 1)
(* the server's buffers hold the last position *)
RECURSIVE Fed(_, _, _, _, _)
Fed(g, mons, ps, srv, k) ==
  IF k > Len(ps) THEN srv
  ELSE LET m == mons[ps[k].m]  d == Data(g, m, ps[k].xy, ps[k].ct) IN
       Fed(g, mons, ps, IF m.ty = "BPM" /\ m.on /\ ~g.off THEN [i \in 1..Len(srv) |-> IF i \in m.srv THEN <<d[1], d[2]>> ELSE srv[i]] ELSE srv, k + 1)
(* a passage through the monitors ms of a line, the first after a drift of s *)
RECURSIVE Passage(_, _, _, _, _, _)
Passage(mons, ms, bunch, s, ct, k) ==
  IF k > Len(ms) THEN <<>>
  ELSE LET m == mons[ms[k]]  z == IF m.len = Zero THEN s ELSE Add(s, Add(Div(m.len, I(2)), m.mp)) IN
       <<[m |-> ms[k], xy |-> Drifted(bunch.p, z, 1), ct |-> IF m.len = Zero THEN Add(ct, s) ELSE Bad]>> \o Passage(mons, ms, bunch, Add(s, m.len), ct, k + 1)
Still(bunch, k) == <<[m |-> k, xy |-> Drifted(bunch.p, Zero, 1), ct |-> bunch.ct]>>
=============================================================================
