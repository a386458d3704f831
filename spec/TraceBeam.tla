----------------------------- MODULE TraceBeam -----------------------------
EXTENDS Beam, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Ok(what, c, info) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, info>>) /\ FALSE
Near(a, g) == Len(a) = Len(g) /\ \A i \in 1..Len(a) : Agree(a[i], g[i])
Sign(a) == IF a[1] < 0 THEN -1 ELSE IF a[1] = 0 THEN 0 ELSE 1
Made(e) ==
  LET b == e.beam  g == e.got IN
  \E m \in {Normal(b)} : \E d \in {Drawn(b, m, e, e.p, e.n, 0, <<>>)} :
  \E d1 \in {Drawn(b, m, e, e.p, e.n - 1, 0, <<>>)} :
  /\ Ok("reference", g.P0 = b.P0 /\ g.T = Zero, <<b.P0, g.P0, g.T>>) /\ Ok("charge", g.Q = b.Q /\ g.sg = Sign(b.Q), <<b.Q, g.Q, g.sg>>)
  /\ Chk("number of particles", e.n, Len(g.p)) /\ Chk("drawn", d1[2], e.drawn)
  /\ Ok("first particle", g.p[1].v = Centroid(b), g.p[1]) /\ \A k \in 1..e.n : Chk("id", k - 1, g.p[k].id)
  /\ \A k \in 1..e.n - 1 : Ok("particle", Near(d1[1][k], g.p[k + 1].v), <<k, d1[1][k], g.p[k + 1].v>>)
Same(s, c) == \A i \in 1..6 : \A j \in 1..i : Agree(s[i][j], c[i][j])
Sigmas(e) ==
  LET b == e.beam  r == e.back  t == Div(One, One) IN
  \E s \in {Sigma(b)} :
  /\ Ok("centroid", e.got.m = Centroid(b), e.got.m) /\ Ok("second moments", Same(s, e.got.c), <<s, e.got.c>>)
  (* the sizes of the beam by itself, without dispersion and coupling *)
  /\ Ok("sizes", Near(<<Mul(Sq(b.ex), Sq(b.bx)), Mul(Sq(b.ey), Sq(b.by)), Mul(Sq(b.ex), Div(Add(One, Sq(b.ax)), Sq(b.bx))), Mul(Sq(b.ey), Div(Add(One, Sq(b.ay)), Sq(b.by)))>>, e.size), e.size)
  /\ Ok("projected emittance", Near(<<Det2(s, 1, 2), Det2(s, 3, 4)>>, e.pemit), <<Det2(s, 1, 2), Det2(s, 3, 4), e.pemit>>)
  (* the emittances of the modes, whichever is called the first *)
  /\ Ok("mode emittances", e.emit \in {<<Sq(b.ex), Sq(b.ey)>>, <<Sq(b.ey), Sq(b.ex)>>} /\ <<r[5], r[6]>> = e.emit, <<b.ex, b.ey, e.emit>>)
  (* back to a beam with the same centroid and moments *)
  /\ Ok("centroid of the beam found", Near(b.c, SubSeq(r, 9, 13)), r)
  /\ Ok("dispersion found", b.sdp = Zero \/ Near(b.D, SubSeq(r, 14, 17)), r) /\ Ok("length and spread found", Agree(b.sdp, r[7]) /\ Agree(b.sz, r[8]), r)
  /\ Ok("without coupling the envelope is the same", b.cs[2] = Zero => Near(<<Sq(b.bx), Sq(b.by), b.ax, b.ay, Sq(b.ex), Sq(b.ey)>>, SubSeq(r, 1, 6)), r)
  /\ Ok("moments of the beam found", Same(s, e.again.c) /\ e.again.m = Centroid(b), <<s, e.again>>)
Step(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "generate" -> Made(e)
    [] e.op = "sigma" -> Sigmas(e)
    [] OTHER -> Ok("unknown operation", FALSE, e)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
