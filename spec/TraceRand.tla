----------------------------- MODULE TraceRand -----------------------------
EXTENDS Ground, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, g, tab
vars == <<l, s, g, tab>>
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Ok(what, c, info) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, info>>) /\ FALSE
(* tab: what was delivered, <<key, request, value>> *)
Known(k, r, t) == {x \in t : x[1] = k /\ x[2] = r}
(* deliveries one after the other: each agrees with what is known, or is new *)
Agrees(v, w, exact) == IF exact THEN v = w ELSE Near(v, w, 1)
RECURSIVE Learn(_, _, _, _, _)
Learn(s0, n, r, v, t) == IF v = <<>> THEN t
  ELSE Learn(Asked(s0, n, r), n, r, Tail(v), IF Known(Key(s0, n), r, t) = {} THEN t \cup {<<Key(s0, n), r, v[1]>>} ELSE t)
RECURSIVE First(_, _, _, _, _, _)   \* number of the first delivery that differs from what is known, or 0
First(s0, n, r, v, exact, i) == IF i > Len(v) THEN 0
  ELSE IF \A x \in Known(Key(s0, n), r, tab) : Agrees(x[3], v[i], exact) THEN First(Asked(s0, n, r), n, r, v, exact, i + 1) ELSE i
(* raw numbers of 64 bits do not occur twice, in one stream or in two *)
RECURSIVE NewKeys(_, _, _, _)
NewKeys(s0, n, r, v) == IF v = <<>> THEN {} ELSE {<<Key(s0, n), v[1]>>} \cup NewKeys(Asked(s0, n, r), n, r, Tail(v))
Plain(k) == k[1] \o (IF k[2] = "" THEN <<>> ELSE <<k[2]>>)
AllRaw(k) == \A i \in 1..Len(k[3]) : k[3][i] = <<"raw">>
Distinct(new) == \A a \in new : \A x \in {y \in tab : y[2] = <<"raw">>} : (x[3] = a[2]) => (Plain(x[1]) = Plain(a[1]) /\ (AllRaw(x[1]) /\ AllRaw(a[1]) => Len(x[1][3]) = Len(a[1][3])))
OnAt(e) == IF s.on THEN s ELSE Seeded(s, e.now)
Raw(e, n) == LET s0 == OnAt(e) IN
  /\ Ok("the stream delivers as before", First(s0, n, <<"raw">>, e.tok, TRUE, 1) = 0, <<Key(s0, n), e.tok>>)
  /\ Ok("numbers do not repeat", Distinct(NewKeys(s0, n, <<"raw">>, e.tok)), e.tok)
  /\ s' = AskedN(s0, n, <<"raw">>, Len(e.tok)) /\ tab' = Learn(s0, n, <<"raw">>, e.tok, tab) /\ g' = g
Ys(y) == LET F[k \in 0..Len(y)] == IF k = 0 THEN <<>> ELSE Append(F[k - 1], y[k][2]) IN F[Len(y)]
Upright(y) == Ok("vertical only", \A k \in 1..Len(y) : y[k][1] = 0 /\ y[k][3] = 0, y)
SetM(gg, i, m) == [gg EXCEPT !.m[i] = m]
Step(e) ==
  CASE e.op = "reset" -> s' = Fresh /\ g' = NoGround /\ tab' = {}
    [] e.op = "init" -> s' = Seeded(s, e.seed) /\ UNCHANGED <<g, tab>>
    [] e.op = "auto" -> Ok("a new seed", e.now # <<>> /\ e.now # s.seed, e.now) /\ s' = Seeded(s, e.now) /\ UNCHANGED <<g, tab>>
    [] e.op = "again" -> s' = Again(s) /\ UNCHANGED <<g, tab>>
    [] e.op = "draw" -> \E s0 \in {OnAt(e)} : \E n \in {StreamOf(e.kind)} :
         /\ Ok("in range", \A k \in 1..Len(e.tok) : InRange(e, e.tok[k]), e.tok)
         /\ Ok("the stream delivers as before", First(s0, n, Request(e), e.tok, FALSE, 1) = 0, <<Key(s0, n), e.tok>>)
         /\ s' = AskedN(s0, n, Request(e), e.n) /\ tab' = Learn(s0, n, Request(e), e.tok, tab) /\ g' = g
    [] e.op = "stats" -> \E s0 \in {OnAt(e)} : \E n \in {StreamOf(e.kind)} : \E r \in {<<"stats">> \o Request(e)} :
         /\ Ok("distribution", StatsOk(e), e)
         /\ Ok("the stream delivers as before", First(s0, n, r, <<e.mean>>, FALSE, 1) = 0, e)
         /\ s' = Asked(s0, n, r) /\ tab' = Learn(s0, n, r, <<e.mean>>, tab) /\ g' = g
    [] e.op = "raw" -> Raw(e, e.name)
    [] e.op = "rawheld" -> Raw(e, Held(s, e.slot))
    [] e.op = "hold" -> s' = Hold(OnAt(e), e.slot, e.name) /\ UNCHANGED <<g, tab>>
    [] e.op = "relocal" -> s' = Restart(OnAt(e), e.name) /\ UNCHANGED <<g, tab>>
    [] e.op = "supports" -> g' = [sup |-> e.at, y |-> Zeros(Len(e.at)), m |-> <<>>] /\ Chk("at rest", Zeros(Len(e.at)), Ys(e.y)) /\ Upright(e.y) /\ UNCHANGED <<s, tab>>
    [] e.op = "motion" -> s' = OnAt(e) /\ g' = [g EXCEPT !.m = Append(@, Motion(g, e))] /\ Chk("nothing moves", g.y, Ys(e.y)) /\ Chk("time", Zero, e.time) /\ tab' = tab
    [] e.op = "mode" -> \E m \in {g.m[e.i]} : \* what becomes of a motion with vibration is left open
         ~Noisy(m) /\ Chk("mode accepted", TRUE, e.r) /\ g' = SetM(g, e.i, [m EXCEPT !.inc = e.inc]) /\ UNCHANGED <<s, tab>>
    [] e.op = "shake" -> \E m \in {g.m[e.i]} : Chk("noise accepted", ~m.inc, e.r) /\ g' = (IF m.inc THEN g ELSE SetM(g, e.i, [m EXCEPT !.vib = AbsR(e.vib)])) /\ UNCHANGED <<s, tab>>
    [] e.op = "step" -> \E m \in {g.m[e.i]} : \E a \in {Ask(m, g, e.dt)} : \E ny \in {Ys(e.y)} : \E d \in {Seen(m, g, a.see, ny, Len(m.on))} : \E kn \in {Known(Key(s, Stream(m)), a.q, tab)} :
         /\ Upright(e.y) /\ Ok("other supports stay", OthersStay(m, g, ny), <<g.y, ny>>)
         /\ Chk("time", Add(m.t, e.dt), e.time) /\ Chk("time returned", Add(m.t, e.dt), e.ret)
         /\ Ok("displacement", \A k \in 1..Len(d) : a.unit[k][1] # 0 \/ Near(d[k], 0, 2), <<a, d>>)
         /\ Ok("displacement as before", \A x \in kn : Fits(x[3], d, a.unit), <<a, d, kn>>)
         /\ g' = SetM([g EXCEPT !.y = ny], e.i, Moved(m, g, s, e.dt, ny))
         /\ s' = (IF a.q[1] = "rest" THEN s ELSE Asked(s, Stream(m), a.q))
         /\ tab' = (IF kn = {} THEN tab \cup {<<Key(s, Stream(m)), a.q, InUnits(d, a.unit)>>} ELSE tab)
    [] e.op = "still" -> \E m \in {g.m[e.i]} : \E y \in {Laid(g.y, m.on, 0)} :
         Chk("offsets", y, Ys(e.y)) /\ Chk("time", Zero, e.time) /\ g' = SetM([g EXCEPT !.y = y], e.i, Stilled(m)) /\ UNCHANGED <<s, tab>>
    [] e.op = "mseed" -> \E m \in {[g.m[e.i] EXCEPT !.seed = e.seed]} : Chk("seed", e.seed, e.sd) /\ Chk("nothing moves", g.y, Ys(e.y)) /\ g' = SetM(g, e.i, m) /\ s' = Restart(s, Stream(m)) /\ tab' = tab
    [] e.op = "mreset" -> \E m \in {g.m[e.i]} : Chk("seed", m.seed, e.sd) /\ Chk("nothing moves", g.y, Ys(e.y)) /\ g' = g /\ s' = Restart(s, Stream(m)) /\ tab' = tab
    [] e.op = "spread" -> \E m \in {g.m[e.i]} : \E v \in {Var(m, g, e)} : \E y \in {Laid(g.y, m.on, 0)} :
         /\ Ok("variance A dT L", Near(e.var * v[2], 1000 * v[1], 290 * v[1] + v[2]), <<v, e.var>>) /\ Ok("mean", Near(e.mean, 0, 210), e.mean)
         /\ Chk("offsets", y, Ys(e.y)) /\ g' = SetM([g EXCEPT !.y = y], e.i, Stilled(m)) /\ s' = Asked(s, Stream(m), <<"spread", e>>) /\ tab' = tab
    [] e.op = "record" -> \E m \in {g.m[e.i]} :
         /\ Chk("the stream is as before", TRUE, e.kept) /\ Chk("rows", Len(m.on), Len(e.rows))
         /\ \A k \in 1..Len(m.on) : \E r \in {e.rows[k]} : \E y \in {g.y[m.on[k]]} : \E p \in {g.sup[m.on[k]]} :
              LET c == IF m.flat THEN 5 ELSE 2 IN
              /\ Chk("columns", IF m.flat THEN 5 ELSE 3, Len(r)) /\ Ok("offset", Near(r[c], y, Abs(y) \div 5000 + 2), <<r, y>>)
              /\ (IF m.flat THEN \A j \in 1..4 : LET x == Tok(IF j = 1 THEN m.t ELSE p[j - 1]) IN Ok("column", Near(r[j], x, Abs(x) \div 5000 + 2), <<j, r, x>>)
                  ELSE Chk("horizontal", <<0, 0>>, <<r[1], r[3]>>))
         /\ UNCHANGED <<s, g, tab>>
    [] e.op = "copy" -> \E m \in {[Motion(g, [flat |-> TRUE, on |-> g.m[e.i].on, A |-> e.A, ref |-> g.m[e.i].ref]) EXCEPT !.seed = "0"]} :
         g' = [g EXCEPT !.m = Append(@, m)] /\ Chk("nothing moves", g.y, Ys(e.y)) /\ UNCHANGED <<s, tab>>
    [] OTHER -> Ok("unknown operation", FALSE, e)
Seeds(e) == IF e.op = "reset" THEN TRUE ELSE IF ~s'.on THEN TRUE ELSE Chk("seed", s'.seed, e.now)
TraceInit == l = 1 /\ s = Fresh /\ g = NoGround /\ tab = {}
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ Seeds(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
