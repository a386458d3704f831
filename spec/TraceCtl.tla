----------------------------- MODULE TraceCtl -----------------------------
EXTENDS Ctl, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, els, arr, st
vars == <<l, els, arr, st>>
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Ok(what, b, info) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, info>>) /\ FALSE
(* the element that is described *)
Made(d) ==
  LET e == [ty |-> d.ty, nm |-> d.nm, len |-> d.len, mod |-> d.mod, bl |-> d.bl, s |-> Zero, c |-> NoC, p |-> <<>>, m |-> d.m] IN
  CASE d.ty \in {"XCor", "YCor", "SectorBend"} -> [e EXCEPT !.s = d.v, !.c = MagC(d.ty)]
    [] d.ty \in Magnets -> [e EXCEPT !.s = IF d.how = "grad" THEN ByGradient(d.ty, d.v) ELSE ByField(d.ty, d.v, d.r), !.c = MagC(d.ty)]
    [] d.ty = "Solenoid" -> [e EXCEPT !.p = [Bz |-> d.v]]
    [] d.ty = "MagnetMover" -> [e EXCEPT !.p = [X |-> Zero, Y |-> Zero, Roll |-> Zero]]
    [] d.ty \in {"TWRFStructure", "SWRFStructure"} -> [e EXCEPT !.p = [E |-> d.v, Phi |-> d.phi, K |-> d.k]]
    [] d.ty = "TransverseRFStructure" -> [e EXCEPT !.p = [E |-> d.v, Phi |-> d.phi, K |-> d.k, ROLL |-> d.roll]]
    [] d.ty = "BPM" -> [e EXCEPT !.p = [X |-> Zero, Y |-> Zero, offX |-> Zero, offY |-> Zero, onX |-> Zero, onY |-> Zero]]
    [] OTHER -> e
RECURSIVE MadeAll(_, _)
MadeAll(ds, k) == IF k > Len(ds) THEN <<>> ELSE <<Made(ds[k])>> \o MadeAll(ds, k + 1)
(* what is seen of an element *)
Seen(w, i, g) ==
  LET e == w[i] IN
  CASE e.ty \in Magnets -> Agree(e.s, g[1]) /\ \A n \in 1..Order : AgreeC(e.c[n], g[2][n])
    [] e.ty = "CorrectorWinding" -> Agree(WindBy(w, i), g[1]) /\ Agree(WindBx(w, i), g[2])
    [] e.ty = "Solenoid" -> Agree(e.p["Bz"], g[1])
    [] e.ty = "MagnetMover" -> Agree(e.p["X"], g[1]) /\ Agree(e.p["Y"], g[2]) /\ Agree(e.p["Roll"], g[3])
    [] e.ty \in RFs -> Agree(e.p["E"], g[1]) /\ Agree(e.p["Phi"], g[2]) /\ Agree(e.p["K"], g[3]) /\ (e.ty = "TransverseRFStructure" => Agree(e.p["ROLL"], g[4]))
    [] OTHER -> TRUE
Dump(e) == /\ Chk("elements", Len(els'), Len(e.els))
           /\ \A i \in 1..Len(els') : Ok("settings", Seen(els', i, e.els[i]), <<i, els'[i], e.els[i]>>)
RECURSIVE Rep(_, _)
Rep(v, n) == IF n = 0 THEN <<>> ELSE <<v>> \o Rep(v, n - 1)
(* the channels of a pattern, in an order that is not given but for the beamline's *)
Found(e, chs) == /\ Chk("channels", chs, {e.ids[k] : k \in 1..Len(e.ids)}) /\ Chk("number of channels", <<Cardinality(chs), Cardinality(chs), Cardinality(chs)>>, <<Len(e.ids), e.count, e.size>>)
                 /\ (e.line => \A k \in 1..Len(e.ids) - 1 : Ok("order", els[e.ids[k][1]].bl <= els[e.ids[k + 1][1]].bl, e.ids))
Chans(e) == ChannelsOf(els, e.tp, e.id, e.key, e.rw, e.line, e.a, IF e.b < 0 THEN 1000 ELSE e.b)
Keep == UNCHANGED <<arr, st>>
Vals(e, ch) == IF e.how = "scalar" THEN Rep(e.v[1], Len(ch)) ELSE e.v
Step(e) ==
  CASE e.op = "reset" -> els' = <<>> /\ arr' = <<>> /\ st' = <<>>
    [] e.op = "build" -> els' = MadeAll(e.el, 1) /\ arr' = <<>> /\ st' = <<>> /\ Dump(e)
    [] e.op = "get" -> \E chs \in {Chans(e)} : Found(e, chs) /\ els' = (IF e.rw THEN els ELSE Attach(els, chs)) /\ arr' = Append(arr, e.ids) /\ st' = st /\ Dump(e)
    [] e.op = "move" -> UNCHANGED els /\ Keep /\ Chk("left", 0, e.left) /\ Dump(e)
    [] e.op = "state" -> \E chs \in {Chans(e)} : Found(e, chs) /\ els' = els /\ arr' = arr /\ st' = Append(st, [ch |-> e.ids, v |-> GetAll(els, e.ids, 1)]) /\ Dump(e)
    [] e.op = "cache" -> els' = els /\ arr' = arr /\ st' = [st EXCEPT ![e.k].v = GetAll(els, st[e.k].ch, 1)] /\ Dump(e)
    [] e.op = "restore" -> els' = PutAll(els, st[e.k].ch, st[e.k].v, 1) /\ Keep /\ Dump(e)
    [] e.op = "read" -> /\ UNCHANGED els /\ Keep
                        /\ \E v \in {GetAll(els, arr[e.k], 1)} : Chk("size", Len(v), Len(e.got)) /\ \A k \in 1..Len(v) : Ok("reading", Agree(v[k], e.got[k]), <<arr[e.k][k], v[k], e.got[k]>>)
                        /\ Dump(e)
    [] e.op = "write" -> els' = (IF e.inc THEN IncAll(els, arr[e.k], Vals(e, arr[e.k]), 1) ELSE PutAll(els, arr[e.k], Vals(e, arr[e.k]), 1)) /\ Keep /\ Dump(e)
    [] e.op = "write1" -> LET c == arr[e.k][e.i]  v == IF e.inc THEN Add(Get(els, c[1], c[2]), e.v) ELSE e.v IN
                          els' = Put(els, c[1], c[2], v) /\ Keep /\ ("ret" \in DOMAIN e => Ok("increment returns", Agree(v, e.ret), <<v, e.ret>>)) /\ Dump(e)
    [] e.op = "offset" -> LET c == arr[e.k][e.i] IN els' = [els EXCEPT ![c[1]].p[IF c[2] = "X" THEN "offX" ELSE "offY"] = e.v] /\ Keep /\ Dump(e)
    [] e.op = "measure" -> els' = Measure(els, e.e, e.x, e.y) /\ Keep /\ Dump(e)
    [] e.op = "scale" -> els' = [els EXCEPT ![e.e].s = e.v] /\ Keep /\ Dump(e)
    [] e.op = "comp" -> els' = [els EXCEPT ![e.e] = SetComp(els[e.e], e.n, e.v, e.r)] /\ Keep /\ Dump(e)
    [] e.op = "coef" -> els' = [els EXCEPT ![e.e] = SetCoef(els[e.e], e.n, e.v, e.r)] /\ Keep /\ Dump(e)
    [] e.op = "wind" -> els' = SetWind(els, e.e, e.pl, e.v) /\ Keep /\ Dump(e)
    [] e.op = "newwind" -> els' = Append(els, [els[e.e] EXCEPT !.ty = "CorrectorWinding", !.mod = 0, !.bl = -1, !.m = e.e]) /\ Keep /\ Chk("name", els[e.e].nm, e.name) /\ Dump(e)
    [] e.op = "set" -> els' = Put(els, e.e, e.key, e.v) /\ Keep /\ Dump(e)
    [] e.op = "copy" -> els' = Append(els, [els[e.e] EXCEPT !.mod = 0, !.bl = -1]) /\ Keep /\ Chk("copy", <<els[e.e].nm, els[e.e].ty>>, <<e.name, e.type>>) /\ Dump(e)
    [] e.op = "look" -> /\ UNCHANGED els /\ Keep /\ Chk("reading changes nothing", <<TRUE, TRUE>>, <<e.quiet, e.covers>>)
                        /\ LET m == els[e.e]  f == Field(m, e.z, -1) IN
                           CASE e.what = "comp" -> \E v \in {CompOf(m, e.n, e.r)} : Ok("component", AgreeC(v, e.got), <<v, e.got>>)
                             [] e.what = "coef" -> \E v \in {CoefOf(m, e.n, e.r)} : Ok("coefficient", AgreeC(v, e.got), <<v, e.got>>)
                             [] e.what = "kn" -> \E v \in {Kn(m, e.n, e.r)} : Ok("normalised component", AgreeC(v, e.got), <<v, e.got>>)
                             [] e.what = "field" -> \E v \in {Field(m, e.z, e.n)} : Ok("field", AgreeC(v, e.got), <<v, e.got>>)
                             [] e.what = "b" -> \E v \in {<<f[2], f[1], Zero, Zero, Zero, Zero>>} : Ok("field", \A k \in 1..6 : Agree(v[k], e.got[k]), <<v, e.got>>)
                             [] OTHER -> \E v \in {Force(f, e.v, e.r)} : Ok("force", \A k \in 1..3 : Agree(v[k], e.got[k]), <<v, e.got>>)
                        /\ Dump(e)
    [] OTHER -> FALSE
TraceInit == l = 1 /\ els = <<>> /\ arr = <<>> /\ st = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
