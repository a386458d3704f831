---------------------------- MODULE TraceAper ----------------------------
EXTENDS Aper, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ap, els, ks
vars == <<l, ap, els, ks>>
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Bad(what, exp, got) == PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Coll(c) == c @@ [k |-> "coll"]
Ap(a) == CASE a.k = "none" -> None [] a.k = "coll" -> a [] OTHER -> [k |-> a.k, p |-> a.p]
El(e) == [ty |-> e.ty, len |-> e.len, nm |-> e.nm, own |-> e.own.k # "none", ap |-> Ap(e.own)]
Pos(n) == LET RECURSIVE F(_) F(i) == IF i = n THEN 0 ELSE els[i].len + F(i + 1) IN F(1)
In(v, s) == v \in s
Step(e) ==
  CASE e.op = "reset" -> ap' = None /\ els' = <<>> /\ ks' = <<>>
    [] e.op = "new" ->
         /\ UNCHANGED <<els, ks>>
         /\ IF e.how = "row" /\ e.k \notin Kinds THEN ap' = None /\ Chk("unknown type", TRUE, e.nil)
            ELSE LET p == IF e.how = "row" THEN FromRow(e.k, e.p) ELSE e.p IN
              /\ ap' = [k |-> e.k, p |-> p]
              /\ Chk("created", <<FALSE, e.k, TName(e.k)>>, <<e.nil, e.kind, e.type>>)
              /\ Chk("parameters", p, e.par) /\ Chk("location", IF e.how = "short" THEN 0 ELSE e.s, e.loc)
    [] e.op = "coll" -> ap' = Coll(e.c) /\ UNCHANGED <<els, ks>>
    [] e.op = "set" -> ap' = (IF e.f = "side" THEN [ap EXCEPT !.side = (e.v # 0)] ELSE [ap EXCEPT ![e.f] = e.v]) /\ UNCHANGED <<els, ks>>
    [] e.op = "get" -> /\ Chk("settings", <<ap.w, ap.h, ap.wx, ap.hx, ap.ox, ap.oy, ap.oxe, ap.oye, ap.len, IF ap.v = "one" /\ ap.side THEN 1 ELSE 0>>, e.got)
                       /\ UNCHANGED <<ap, els, ks>>
    [] e.op = "prof" -> /\ ap' = [k |-> "prof", ks |-> [i \in 1..Len(e.ks) |-> [s |-> e.ks[i].s, k |-> e.k, p |-> e.ks[i].p]], len |-> e.ks[Len(e.ks)].s]
                        /\ UNCHANGED <<els, ks>>
    [] e.op = "pts" -> /\ UNCHANGED <<ap, els, ks>>
                       /\ \A i \in 1..Len(e.q) : LET p == e.q[i]  s == Verdict(ap, p[1], p[2], p[3]) IN
                            IF e.v[i] \in s THEN TRUE ELSE Bad("point", <<p, s>>, e.v[i])
    [] e.op = "machine" -> els' = [i \in 1..Len(e.elems) |-> El(e.elems[i])] /\ UNCHANGED <<ap, ks>>
    [] e.op = "table" -> /\ ks' = Knots(e.rows) /\ UNCHANGED <<ap, els>>
                         /\ Chk("table", [i \in 1..Len(ks') |-> <<ks'[i].s, TName(ks'[i].k)>>], e.knots)
    [] e.op = "conf" -> els' = Configure(els, 0, ks) /\ UNCHANGED <<ap, ks>>
    [] e.op = "delall" -> els' = [i \in 1..Len(els) |-> [els[i] EXCEPT !.ap = None, !.own = FALSE]] /\ UNCHANGED <<ap, ks>>
    [] e.op = "apts" -> /\ UNCHANGED <<ap, els, ks>>
                        /\ \A i \in 1..Len(e.q) : LET p == e.q[i]  s == Verdict(els[p[1]].ap, p[2], p[3], p[4]) IN
                             IF e.v[i] \in s THEN TRUE ELSE Bad("point in element", <<p, s, els[p[1]].ap>>, e.v[i])
    [] e.op = "types" -> /\ UNCHANGED <<ap, els, ks>> /\ Chk("elements", Len(els), Len(e.got))
                         /\ \A i \in 1..Len(els) : IF IF els[i].own THEN e.got[i] = "own" ELSE TypeOk(els[i].ap, e.got[i]) THEN TRUE ELSE Bad("kind of aperture", <<i, els[i]>>, e.got[i])
    [] e.op = "survey" ->
         LET w == Survey(els, 1, 0, e.mode, e.step) IN
         /\ UNCHANGED <<ap, els, ks>>
         /\ Chk("columns", "#name\ttype\ts_end\tlength\ts\tap_px\tap_mx\tap_py\tap_my", e.head)
         /\ Chk("places", [i \in 1..Len(w) |-> LET x == els[w[i][1]] IN <<x.nm, x.ty, w[i][3] + x.len, x.len, w[i][3] + w[i][2]>>],
                          [i \in 1..Len(e.rows) |-> SubSeq(e.rows[i], 1, 5)])
         /\ \A i \in 1..Len(w) : \A dir \in 1..4 : IF Limit(els[w[i][1]].ap, dir, w[i][2], e.rows[i][5 + dir]) THEN TRUE
                                                  ELSE Bad("limit", <<w[i], dir, els[w[i][1]].ap>>, e.rows[i])
    [] OTHER -> FALSE
TraceInit == l = 1 /\ ap = None /\ els = <<>> /\ ks = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
