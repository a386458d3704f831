----------------------------- MODULE TraceDiag -----------------------------
EXTENDS Diag, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mon, g, bunch, srv, own
vars == <<l, mon, g, bunch, srv, own>>
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Ok(what, b, info) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, info>>) /\ FALSE
RECURSIVE Made(_, _)
Made(ds, k) == IF k > Len(ds) THEN <<>> ELSE
  LET d == ds[k]
      u == CASE d.ang = "0" -> <<One, Zero>> [] d.ang = "90" -> <<Zero, One>> [] d.ang = "dflt" -> <<Bad, Bad>> [] OTHER -> d.u
      uu == IF d.ang = "dflt" THEN <<<<1, 2>>, <<1, 2>>, <<1, 2>>>> ELSE IF d.ang = "0" THEN <<One, Zero, Zero>> ELSE IF d.ang = "90" THEN <<Zero, One, Zero>> ELSE <<Mul(u[1], u[1]), Mul(u[2], u[2]), Mul(u[1], u[2])>>
  IN <<Monitor0(d.ty, d.len, d.mp, u, uu)>> \o Made(ds, k + 1)
SameRec(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ Len(a[3]) = Len(b[3]) /\ \A i \in 1..Len(a[3]) : Agree(a[3][i], b[3][i])
Dump(e, recs) ==
  /\ Ok("records", Len(recs) = Len(e.recs), <<recs, e.recs>>)
  /\ \A i \in 1..Len(recs) : Ok("record", SameRec(recs[i], e.recs[i]), <<recs[i], e.recs[i]>>)
  /\ Chk("monitors", Len(mon'), Len(e.mon))
  /\ \A i \in 1..Len(mon') : Chk("active, reflected", <<mon'[i].on /\ ~g'.off, mon'[i].refl>>, e.mon[i])
  /\ Chk("buffers of the server", Len(srv'), Len(e.srv))
  /\ \A i \in 1..Len(srv') : Ok("held", Agree(srv'[i][1], e.srv[i][1]) /\ Agree(srv'[i][2], e.srv[i][2]), <<i, srv'[i], e.srv[i]>>)
Keep == UNCHANGED <<g, bunch, srv, own>>
Mon(e, m) == mon' = [mon EXCEPT ![e.m] = m]
Silent(e) == Dump(e, <<>>)
Measured(e, ps) == /\ mon' = mon /\ UNCHANGED <<g, bunch, own>>
                   /\ (\E s \in {Fed(g, mon, ps, srv, 1)} : srv' = s)
                   /\ \E r \in {Records(g, mon, ps)} : Dump(e, r)
G0(noise) == [def |-> [BPM |-> 0, RMS |-> 0], off |-> FALSE, noise |-> noise]
(* repeated measurements: mean and variance about the value without noise, in units of the resolution *)
Unit(m, k) == IF m.ty = "BPM" THEN LET r == Mul(RespA(m.resp), IF k = 1 THEN Mul(m.rx, m.sx) ELSE Mul(m.ry, m.sy)) IN IF r[1] < 0 THEN Neg(r) ELSE r
              ELSE CASE k \in {1, 4} -> m.rx [] k \in {2, 5} -> m.ry [] OTHER -> m.ru
Spread(e) ==
  LET m == mon[e.m]  p == Plain(m, Drifted(bunch.p, Zero, 1))  n == Cardinality(Targets(g, m) \cup m.srv) IN
  IF Targets(g, m) = {} THEN Chk("measurements", 0, e.count)
  ELSE /\ Chk("measurements", e.n, e.count)
       /\ \A k \in 1..Len(p) :
            LET noisy == Unit(m, k) # Zero /\ (m.ty = "RMS" \/ g.noise)  x == e.got[k] IN
            Assert(Agree(p[k], e.at[k]) /\ e.unit[k] = Unit(m, k), <<"the scenario's own value", k, p, e.at, e.unit>>)
            /\ IF noisy THEN Ok("noise", x[1] \in -35..35 /\ x[2] \in 55..150 /\ ~x[3], <<k, x>>) ELSE Ok("no noise", x = <<0, 0, TRUE>>, <<k, x>>)
Step(e) ==
  CASE e.op = "reset" -> mon' = <<>> /\ g' = G0(TRUE) /\ bunch' = [p |-> <<>>, ct |-> Zero] /\ srv' = <<>> /\ own' = <<>>
    [] e.op = "monitors" -> mon' = Made(e.m, 1) /\ g' = G0(e.noise) /\ bunch' = [p |-> <<>>, ct |-> Zero] /\ srv' = <<>> /\ own' = <<>> /\ Silent(e)
    [] e.op = "mcopy" -> mon' = Append(mon, mon[e.m]) /\ Keep /\ Silent(e)
    [] e.op = "attach" -> Mon(e, [mon[e.m] EXCEPT !.bufs = @ \cup {e.b}]) /\ Keep /\ Silent(e)
    [] e.op = "detach" -> Chk("was attached", e.b \in mon[e.m].bufs, e.had) /\ Mon(e, [mon[e.m] EXCEPT !.bufs = @ \ {e.b}]) /\ Keep /\ Silent(e)
    [] e.op = "clearbuf" -> Mon(e, [mon[e.m] EXCEPT !.bufs = {}, !.srv = {}]) /\ Keep /\ Silent(e)
    [] e.op = "default" -> mon' = mon /\ g' = [g EXCEPT !.def[e.ty] = e.b] /\ UNCHANGED <<bunch, srv, own>> /\ Silent(e)
    [] e.op = "active" -> Chk("was", mon[e.m].on, e.was) /\ Mon(e, [mon[e.m] EXCEPT !.on = e.on]) /\ Keep /\ Silent(e)
    [] e.op = "alloff" -> mon' = mon /\ g' = [g EXCEPT !.off = e.on] /\ UNCHANGED <<bunch, srv, own>> /\ Silent(e)
    [] e.op = "noise" -> mon' = mon /\ g' = [g EXCEPT !.noise = e.on] /\ UNCHANGED <<bunch, srv, own>> /\ Silent(e)
    [] e.op = "turn" -> /\ (e.how # "Y180" => Chk("was", mon[e.m].refl, e.was))
                        /\ Mon(e, [mon[e.m] EXCEPT !.refl = IF e.how = "Y180" THEN ~@ ELSE e.how = "on"]) /\ Keep /\ Silent(e)
    [] e.op = "scale" -> Mon(e, [mon[e.m] EXCEPT !.sx = e.x, !.sy = e.y]) /\ Keep /\ Silent(e)
    [] e.op = "res" -> /\ ("ret" \in DOMAIN e => Chk("returned", e.x, e.ret))
                       /\ Mon(e, [mon[e.m] EXCEPT !.rx = e.x, !.ry = (IF e.one THEN e.x ELSE e.y), !.ru = (IF mon[e.m].ty = "RMS" THEN e.u ELSE Zero)]) /\ Keep /\ Silent(e)
    [] e.op = "resp" -> Chk("was", mon[e.m].resp, e.was) /\ Mon(e, [mon[e.m] EXCEPT !.resp = e.r]) /\ Keep /\ Silent(e)
    [] e.op = "server" -> (* own: <<monitor, buffer>> of the server *)
         LET had == {p \in {own[i] : i \in 1..Len(own)} : p[1] = e.m} IN
         IF had # {} THEN Chk("the same buffer", (CHOOSE p \in had : TRUE)[2], e.k) /\ mon' = mon /\ Keep /\ Silent(e)
         ELSE IF ~e.create THEN Chk("no buffer", 0, e.k) /\ mon' = mon /\ Keep /\ Silent(e)
         ELSE /\ Chk("a new buffer", Len(srv) + 1, e.k) /\ srv' = Append(srv, <<Zero, Zero>>) /\ own' = Append(own, <<e.m, Len(srv) + 1>>)
              /\ Mon(e, [mon[e.m] EXCEPT !.srv = @ \cup {Len(srv) + 1}]) /\ UNCHANGED <<g, bunch>> /\ Silent(e)
    [] e.op = "bunch" -> mon' = mon /\ bunch' = [p |-> e.p, ct |-> e.ct] /\ UNCHANGED <<g, srv, own>> /\ Silent(e)
    [] e.op = "measure" -> Chk("bunch kept", TRUE, e.kept) /\ Measured(e, Still(bunch, e.m))
    [] e.op = "pass" -> \E ps \in {Passage(mon, e.ms, bunch, e.before, bunch.ct, 1)} : Measured(e, ps)
    [] e.op = "spread" -> mon' = mon /\ UNCHANGED <<g, bunch, own>> /\ srv' = [i \in 1..Len(srv) |-> IF i \in mon[e.m].srv /\ mon[e.m].on /\ ~g.off THEN <<Bad, Bad>> ELSE srv[i]] /\ Spread(e) /\ Silent(e)
    [] OTHER -> Ok("unknown operation", FALSE, e)
TraceInit == l = 1 /\ mon = <<>> /\ g = G0(TRUE) /\ bunch = [p |-> <<>>, ct |-> Zero] /\ srv = <<>> /\ own = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
