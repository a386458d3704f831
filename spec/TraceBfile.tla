----------------------------- MODULE TraceBfile -----------------------------
EXTENDS Bfile, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b, t
vars == <<l, b, t>>
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Ok(what, c, info) == IF c THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, info>>) /\ FALSE
Six(p) == [k \in 1..Len(p) |-> SubSeq(p[k], 1, 6)]
SameB(n, e, ids) ==
  /\ Chk("reference", <<n.P0, n.T>>, <<e.got.P0, e.got.T>>) /\ Chk("number of particles", Len(n.p), Len(e.got.p))
  /\ \A k \in 1..Len(n.p) : Chk("coordinates", SubSeq(n.p[k], 1, 6), SubSeq(e.got.p[k], 1, 6)) /\ Chk("id", n.p[k][7], ids[k])
  /\ Ok("charge", Len(n.p) = 0 \/ e.got.Q = e.Q, <<e.Q, e.got.Q>>)
Step(e) ==
  CASE e.op = "reset" -> b' = Empty /\ t' = <<>>
    [] e.op = "fmake" -> \E n \in {[P0 |-> e.P0, T |-> e.T, p |-> e.p]} : b' = n /\ t' = t /\ SameB(n, e, [k \in 1..Len(n.p) |-> e.got.p[k][7]])
    [] e.op = "fwrite" -> \E w \in {Written(b, e.how, e.i, e.pre)} : Chk("lines", Len(w), e.lines) /\ Chk("the stream is as before", TRUE, e.kept) /\ t' = t \o w /\ b' = b
    [] e.op = "ftext" -> t' = t \o Given(e.rows, 1) /\ b' = b
    [] e.op = "fnew" -> t' = <<>> /\ b' = b
    [] e.op = "fread" -> \E n \in {IF e.how = "input" THEN Read(IF e.append THEN b ELSE Empty, t) ELSE ReadVecs(e.P0, t)} : b' = n /\ t' = t /\ SameB(n, e, e.ids)
    [] OTHER -> Ok("unknown operation", FALSE, e)
TraceInit == l = 1 /\ b = Empty /\ t = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
