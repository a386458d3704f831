----------------------------- MODULE TraceSmp -----------------------------
EXTENDS Smp, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b
vars == <<l, b>>
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Ok(what, c, info) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, info>>) /\ FALSE
Near(a, g) == Len(a) = Len(g) /\ \A i \in 1..Len(a) : Agree(a[i], g[i])
SameS(p, g) == Agree(p.q, g.q) /\ Near(p.m, g.m) /\ \A i \in 1..4 : Near(p.c[i], g.c[i])
SameB(x, g) ==
  /\ Ok("reference", Agree(x.P0, g.P0) /\ Agree(x.T, g.T), <<x.P0, x.T, g.P0, g.T>>)
  /\ Chk("sign of charge", x.sg, g.sg) /\ Ok("total charge", Agree(Qtot(x.s, 1), g.Q), <<Qtot(x.s, 1), g.Q>>)
  /\ Chk("number", Len(x.s), Len(g.s)) /\ Chk("size", Len(x.s), g.n)
  /\ \A k \in 1..Len(x.s) : Ok("macroparticle", SameS(x.s[k], g.s[k]), <<k, x.s[k], g.s[k]>>)
Set(e, n) == (\E m \in {n} : b' = m /\ SameB(m, e))
(* sorted as the code did, if that is a sorting *)
Sorted(e, x) == /\ Ok("same macroparticles", SameSlices(x.s, e.s), <<x.s, e.s>>) /\ Ok("ascending", Ascending(e.s), e.s) /\ Set(e, [x EXCEPT !.s = e.s])
Moments(e, s) ==
  LET u == e.u + 1  v == e.v + 1 IN
  \E ms \in {<<Mean(s, 1), Mean(s, 2), Mean(s, 3), Mean(s, 4), Mean(s, 5), Mean(s, 6)>>} :
  /\ Ok("means", Near(ms, e.all.m), <<ms, e.all.m>>)
  /\ \A i \in 1..6 : \A j \in 1..i : Ok("second moment", Agree(Cov(s, i, j), e.all.c[i][j]), <<i, j, Cov(s, i, j), e.all.c[i][j]>>)
  /\ Ok("projection", Near(<<ms[u], ms[v], Cov(s, u, u), Cov(s, u, v), Cov(s, v, v)>>, e.proj), e.proj)
  /\ Ok("centroid", Near(ms, e.centroid), e.centroid) /\ Ok("projected centroid", Near(<<ms[u], ms[v]>>, e.pc), e.pc)
Step(e) ==
  CASE e.op = "reset" -> b' = New(One, One)
    [] e.op = "smake" -> Set(e, New(e.ref, e.charge))
    [] e.op = "sadd" -> IF e.sort THEN Sorted(e, [b EXCEPT !.s = Append(@, e.given)]) ELSE Set(e, [b EXCEPT !.s = Append(@, e.given)])
    [] e.op = "ssort" -> Sorted(e, b)
    [] e.op = "sshift" -> Set(e, [b EXCEPT !.s = Shift(@, e.p.v, 1)])
    [] e.op = "sref" -> Set(e, IF e.what = "P0" THEN [b EXCEPT !.P0 = e.x] ELSE [b EXCEPT !.T = e.x])
    [] e.op = "sadjust" -> \E n \in {IF e.what = "time" THEN AdjustT(b) ELSE AdjustP(b)} :
                           Ok("returned", Agree(IF e.what = "time" THEN n.T ELSE n.P0, e.ret), <<n.T, n.P0, e.ret>>) /\ Set(e, n)
    [] e.op = "sturn" -> Set(e, [b EXCEPT !.s = Turned(@, e.x, e.y, e.u, 1)])
    [] e.op = "smoments" -> Moments(e, b.s) /\ Set(e, b)
    [] e.op = "sfile" -> Sorted(e, [b EXCEPT !.sg = Sign(Qtot(b.s, 1))])
    [] OTHER -> Ok("unknown operation", FALSE, e)
TraceInit == l = 1 /\ b = New(One, One)
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
