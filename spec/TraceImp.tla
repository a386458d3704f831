------------------------------ MODULE TraceImp ------------------------------
EXTENDS Imp, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, cfg
vars == <<l, st, cfg>>
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Set(s) == {s[i] : i \in 1..Len(s)}
Cfg(c, P) == [drifts |-> Set(c.drifts), zeros |-> Set(c.zeros), single |-> c.single, flat |-> c.flat, honour |-> c.honour, P |-> P]
Judge(s, m) == /\ Chk("elements", Len(s.els), Len(m.els))
               /\ \A i \in 1..Len(s.els) : Chk(<<"element", i>>, s.els[i], m.els[i])
               /\ Chk("frames", FrameSet(s.frames), FrameSet(m.frames)) /\ Chk("number of frames", Len(s.frames), Len(m.frames))
               /\ Chk("length", s.z, m.total)
Step(e) ==
  CASE e.op = "reset" -> st' = Start /\ UNCHANGED cfg
    [] e.op = "import" -> LET s == Rows(Start, e.rows, Cfg(e.cfg, e.P), Set(e.cols)) IN st' = Start /\ UNCHANGED cfg /\ Judge(s, e.m) /\ Chk("momentum", e.P, e.mom)
    [] e.op = "begin" -> st' = Start /\ cfg' = Cfg(e.cfg, 1)
    [] e.op = "append" -> st' = Rows(st, e.rows, [cfg EXCEPT !.P = e.P], Set(e.cols)) /\ UNCHANGED cfg
    [] e.op = "get" -> st' = [Start EXCEPT !.open = st.open] /\ UNCHANGED cfg /\ Judge(st, e.m)
    [] OTHER -> FALSE
TraceInit == l = 1 /\ st = Start /\ cfg = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
