----------------------------- MODULE TraceBunch -----------------------------
EXTENDS Bunch, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bs
vars == <<l, bs>>
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Ok(what, b, info) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, info>>) /\ FALSE
Near(a, g) == Len(a) = Len(g) /\ \A i \in 1..Len(a) : Agree(a[i], g[i])
SameP(p, g) == p.id = g.id /\ Near(p.v, g.v)
SameB(b, g) ==
  /\ Ok("reference", Agree(b.P0, g.P0) /\ Agree(b.T, g.T), <<b.P0, b.T, g.P0, g.T>>)
  /\ Chk("sign of charge", b.sg, g.sg) /\ Ok("total charge", Agree(Charge(b), g.Q), <<Charge(b), g.Q>>) /\ Chk("views", TRUE, g.same)
  /\ Chk("number of particles", Len(b.p), Len(g.p))
  /\ \A k \in 1..Len(b.p) : Ok("particle", SameP(b.p[k], g.p[k]), <<k, b.p[k], g.p[k]>>)
Dump(e) == /\ Chk("bunches", Len(bs'), Len(e.bs)) /\ \A k \in 1..Len(bs') : SameB(bs'[k], e.bs[k])
(* bound once: definitions are evaluated at every use *)
Set(e, nb) == (\E n \in {nb} : bs' = [bs EXCEPT ![e.b] = n]) /\ Dump(e)
Adopted(e, ps) == (* sorted as the code did, if that is a sorting of ps *)
  LET g == e.bs[e.b].p IN
  /\ Ok("same particles", SameParticles(ps, g), <<ps, g>>)
  /\ Ok("ascending", Ascending(g), g)
  /\ bs' = [bs EXCEPT ![e.b].p = g] /\ Dump(e)
SigmaOk(ps, g) ==
  /\ \A i \in 1..6 : Ok("mean", Agree(Mean(ps, i), g.m[i]), <<i, Mean(ps, i), g.m>>)
  /\ \A i \in 1..6 : \A j \in 1..i : Ok("second moment", Agree(Cov(ps, i, j), g.c[i][j]), <<i, j, Cov(ps, i, j), g.c[i][j]>>)
Moments(e, ps) ==
  LET u == e.u + 1  v == e.v + 1 IN
  /\ SigmaOk(ps, e.all) /\ SigmaOk(ps, e.fresh)
  /\ Ok("projection", Near(<<Mean(ps, u), Mean(ps, v), Cov(ps, u, u), Cov(ps, u, v), Cov(ps, v, v)>>, e.proj), <<e.proj, Cov(ps, u, u), Cov(ps, u, v), Cov(ps, v, v)>>)
  /\ Ok("centroid", \A i \in 1..6 : Agree(Mean(ps, i), e.centroid[i]), e.centroid)
  /\ Ok("projected centroid", Near(<<Mean(ps, u), Mean(ps, v)>>, e.pc), e.pc)
  /\ Ok("one coordinate", Near(<<Mean(ps, u), Cov(ps, u, u)>>, e.one), e.one)
Edge(e) == IF e.edge THEN <<[v |-> <<Zero, Zero, Zero, Zero, e.to, Zero>>, id |-> 999]>> ELSE <<>>
Slices(e) ==
  LET b == bs[e.b]  dz == Div(Sub(e.to, e.from), I(e.n)) IN
  \E kept \in {Keep(b.p, e.from, e.to, 1)} : \E c0 \in {Counts(kept, 5, e.from, e.to, e.n, 1)} :
  \E cs \in {IF e.edge THEN [c0 EXCEPT ![e.n] = @ + 1] ELSE c0} :
  \E h \in {Scaled(cs, Norm(cs, dz), 1)} :
  /\ Chk("lost", Len(b.p) - Len(kept), e.lost)
  /\ Chk("slices", Ends(cs, 1, 0), e.bins)
  /\ Ok("distribution", Near(h, e.h), <<h, e.h>>) /\ Ok("slope", Near(IF h[1] = Bad THEN h ELSE Slopes(h, e.c, 1), e.hp), <<Slopes(h, e.c, 1), e.hp>>)
  /\ Adopted(e, kept \o Edge(e))
Histo(e) ==
  LET b == bs[e.b]  i == e.u + 1  n == Div(Sub(e.to, e.from), e.du)[1] IN
  \E kept \in {Inside(b.p, i, e.from, e.to, 1)} : \E cs \in {Counts(kept, IF i = 5 THEN 5 ELSE i, e.from, e.to, n, 1)} :
  \E hs \in {IF i = 5 THEN [cs EXCEPT ![n] = @ + Cardinality({k \in 1..Len(kept) : kept[k].v[5] = e.to})] ELSE cs} :
  /\ Chk("lost", Len(b.p) - Len(kept), e.lost)
  /\ Ok("histogram", Near(Scaled(hs, IF e.norm THEN Norm(hs, e.du) ELSE One, 1), e.h), <<hs, e.h>>)
  /\ Set(e, IF e.cut THEN [b EXCEPT !.p = kept] ELSE b)
Step(e) ==
  CASE e.op = "reset" -> bs' = <<>>
    [] e.op = "make" -> /\ Chk("array taken", 0, e.left)
                        /\ bs' = Append(bs, IF e.how = "array" THEN FromArray(e.P0, e.Q, e.p) ELSE New(e.P0, IF e.how = "default" THEN One ELSE e.Q, <<>>)) /\ Dump(e)
    [] e.op = "copy" -> bs' = Append(bs, bs[e.b]) /\ Dump(e)
    [] e.op = "assign" -> bs' = [bs EXCEPT ![e.to] = bs[e.b]] /\ Dump(e)
    [] e.op = "add" -> Chk("new size", Len(bs[e.b].p) + 1, e.n) /\ Set(e, [bs[e.b] EXCEPT !.p = Append(@, e.p)])
    [] e.op = "erase" -> Chk("next", e.i, e.next) /\ Set(e, [bs[e.b] EXCEPT !.p = Without(@, e.i)])
    [] e.op = "clear" -> Set(e, [bs[e.b] EXCEPT !.p = <<>>])
    [] e.op = "swap" -> bs' = [bs EXCEPT ![e.b].p = bs[e.to].p, ![e.to].p = bs[e.b].p] /\ Dump(e)
    [] e.op = "sort" -> Adopted(e, bs[e.b].p)
    [] e.op = "charge" -> Set(e, [bs[e.b] EXCEPT !.q = e.q, !.sg = Sign(e.q)])
    [] e.op = "ref" -> LET r == IF e.what \in {"P0", "T"} THEN e.x ELSE Add(e.x, IF e.what = "dP0" THEN bs[e.b].P0 ELSE bs[e.b].T) IN
                       Ok("returned", Agree(r, e.ret), <<r, e.ret>>) /\ Set(e, IF e.what \in {"P0", "dP0"} THEN [bs[e.b] EXCEPT !.P0 = r] ELSE [bs[e.b] EXCEPT !.T = r])
    [] e.op = "adjust" -> \E n \in {IF e.what = "time" THEN AdjustT(bs[e.b]) ELSE AdjustP(bs[e.b], IF e.what = "mean" THEN Mean(bs[e.b].p, 6) ELSE e.d)} :
                          Ok("returned", Agree(IF e.what = "time" THEN n.T ELSE n.P0, e.ret), <<n.T, n.P0, e.ret>>) /\ Set(e, n)
    [] e.op = "centre" -> Set(e, Centred(IF e.given THEN [bs[e.b] EXCEPT !.p[1] = e.p] ELSE bs[e.b]))
    [] e.op = "moments" -> Moments(e, bs[e.b].p) /\ bs' = bs /\ Dump(e)
    [] e.op = "slices" -> Slices(e)
    [] e.op = "histogram" -> Histo(e)
    [] OTHER -> Ok("unknown operation", FALSE, e)
TraceInit == l = 1 /\ bs = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
