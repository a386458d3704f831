------------------------------ MODULE TraceFb ------------------------------
EXTENDS Fb, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, f
vars == <<l, f>>
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Ok(what, b, info) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, info>>) /\ FALSE
Dump(e, writes) ==
  /\ Chk("number of actuators", Len(f'.a), Len(e.act)) /\ Ok("actuators", \A k \in 1..Len(f'.a) : Agree(f'.a[k], e.act[k]), <<f'.a, e.act>>)
  /\ Chk("actuators written", writes, e.writes) /\ Chk("channels", <<Len(f'.sp), Len(f'.a)>>, <<e.ns, e.na>>) /\ Chk("gain", f'.g, e.gain)
  /\ \E x \in {MeanSq(Error(f'))} : Ok("rms of the signals", Agree(x, e.sr2), <<x, e.sr2>>)
  /\ \E x \in {MeanSq(f'.a)} : Ok("rms of the actuators", Agree(x, e.ar2), <<x, e.ar2>>)
Step(e) ==
  CASE e.op = "reset" -> f' = New(<<>>, <<>>, <<>>)
    [] e.op = "system" -> f' = New(e.sig, e.act, e.P) /\ Assert(Penrose(e.M, e.P), "not the inverse") /\ Dump(e, 0)
    [] e.op = "response" -> /\ Chk("refused", IsNil(e.M), e.refused)
                            /\ (IF e.refused THEN f' = f ELSE Assert(Penrose(e.M, e.P), "not the inverse") /\ f' = [f EXCEPT !.P = e.P])
                            /\ Dump(e, 0)
    [] e.op = "signals" -> f' = [f EXCEPT !.s = e.v, !.closed = FALSE] /\ Dump(e, 0)
    [] e.op = "plant" -> f' = [f EXCEPT !.closed = TRUE, !.M = e.M, !.d = e.d] /\ Dump(e, 0)
    [] e.op = "actuators" -> f' = [f EXCEPT !.a = e.v] /\ Dump(e, 0)
    [] e.op = "apply" -> (\E g \in {Applied(f)} : f' = g) /\ Dump(e, Len(f.a))
    [] e.op = "gain" -> f' = [f EXCEPT !.g = e.g] /\ Dump(e, 0)
    [] e.op = "setpoints" -> f' = [f EXCEPT !.sp = e.v] /\ Dump(e, 0)
    [] e.op = "nominal" -> f' = [f EXCEPT !.sp = Signals(f)] /\ Dump(e, 0)
    [] e.op = "delay" -> f' = SetDelay(f, e.n) /\ Dump(e, 0)
    [] e.op = "store" -> f' = [f EXCEPT !.stored = f.a] /\ Dump(e, 0)
    [] e.op = "restore" -> f' = [f EXCEPT !.a = f.stored] /\ Dump(e, Len(f.a))
    [] OTHER -> Ok("unknown operation", FALSE, e)
TraceInit == l = 1 /\ f = New(<<>>, <<>>, <<>>)
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
