----------------------------- MODULE TraceKly -----------------------------
EXTENDS Kly, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cav, kly
vars == <<l, cav, kly>>
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Ok(what, b, info) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, info>>) /\ FALSE
Seen(k, g) == Agree(k.v, g[1]) /\ AgreeC(k.u, g[2]) /\ AgreeC(Vec(k.v, k.u), g[3]) /\ g[4] = Len(k.cs)
Dump(e) == /\ Chk("cavities", Len(cav'), Len(e.cav)) /\ Chk("klystrons", Len(kly'), Len(e.kly))
           /\ \A i \in 1..Len(cav') : Ok("cavity", AgreeC(cav'[i], e.cav[i]), <<i, cav'[i], e.cav[i]>>)
           /\ \A i \in 1..Len(kly') : Ok("klystron", Seen(kly'[i], e.kly[i]), <<i, kly'[i], e.kly[i]>>)
Set(e, k) == /\ kly' = [kly EXCEPT ![e.k] = k] /\ cav' = Drive(cav, k) /\ Dump(e)
Step(e) ==
  CASE e.op = "reset" -> cav' = <<>> /\ kly' = <<>>
    [] e.op = "cavities" -> cav' = e.z /\ kly' = <<>> /\ Dump(e)
    [] e.op = "klystron" -> LET k == [cs |-> e.cs, sum |-> e.mode = "sum", v |-> e.v, u |-> e.u] IN
                            /\ Assert(Fits(cav, k), <<"not the sum of the cavities", k>>)
                            /\ kly' = Append(kly, k) /\ cav' = Taken(cav, k) /\ Chk("name", "k/Klystron", e.name) /\ Dump(e)
    [] e.op = "kcopy" -> kly' = Append(kly, kly[e.k]) /\ cav' = cav /\ Chk("name", "k/Klystron", e.name) /\ Dump(e)
    [] e.op = "volt" -> Chk("reads back", TRUE, e.same) /\ Set(e, [kly[e.k] EXCEPT !.v = e.v])
    [] e.op = "phase" -> Chk("reads back", TRUE, e.same) /\ Set(e, [kly[e.k] EXCEPT !.u = e.u])
    [] e.op = "phasor" -> Set(e, IF e.v[1] < 0 THEN [kly[e.k] EXCEPT !.v = Neg(e.v), !.u = <<Neg(e.u[1]), Neg(e.u[2])>>]
                                 ELSE IF e.v[1] = 0 THEN [kly[e.k] EXCEPT !.v = Zero, !.u = BadC] ELSE [kly[e.k] EXCEPT !.v = e.v, !.u = e.u])
    [] e.op = "cav" -> /\ kly' = kly
                       /\ cav' = [cav EXCEPT ![e.c] = Vec(e.v, e.u)]
                       /\ Dump(e)
    [] OTHER -> Ok("unknown operation", FALSE, e)
TraceInit == l = 1 /\ cav = <<>> /\ kly = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
