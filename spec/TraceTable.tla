---------------------------- MODULE TraceTable ----------------------------
EXTENDS Table, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, t, u
vars == <<l, t, u>>
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
In(what, exp, got) == IF got \in exp THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "one of", exp, "got", got>>) /\ FALSE
(* the reported result is one of res; the table is then as it says *)
Do(e, res, tt) == /\ In("result", res, e.res) /\ t' = (IF e.res = "ok" THEN tt ELSE t) /\ u' = u /\ Chk("table", t', e.tab)
Same == UNCHANGED <<t, u>>
RECURSIVE Column(_, _)
Column(rows, c) == IF rows = <<>> THEN <<>> ELSE <<rows[1][c]>> \o Column(Tail(rows), c)
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Rev(Tail(s)) \o <<s[1]>>
RECURSIVE Odd(_)
Odd(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>> \o (IF Len(s) = 1 THEN <<>> ELSE Odd(Tail(Tail(s))))
Step(e) ==
  CASE e.op = "reset" -> t' = Empty /\ u' = Empty
    [] e.op = "addcol" -> Do(e, AddRes(t.cols, e.n, e.t), AddCol(t, e.n, e.t))
    [] e.op = "hadd" -> Do(e, AddRes(t.hdr, e.n, e.t), HAdd(t, e.n, e.t))
    [] e.op = "addrow" -> Do(e, {"ok"}, AddRow(t)) /\ Chk("number of the row", Len(t.rows), e.i)
    [] e.op = "addrows" -> Do(e, {"ok"}, AddRows(t, e.k)) /\ Chk("number of the row", Len(t.rows) + e.k - 1, e.i)
    [] e.op = "addvals" -> Do(e, ValsRes(t, e.v), AddVals(t, e.v))
    [] e.op = "set" -> Do(e, CellRes(t, e.n, e.i, e.v.t), SetCell(t, e.n, e.i, e.v))
    [] e.op = "setstr" -> Do(e, TextRes(t, e.n, e.i, e.x), SetText(t, e.n, e.i, e.x))
    [] e.op = "hset" -> Do(e, HRes(t, e.n, e.v.t), HSet(t, e.n, e.v))
    [] e.op = "hsetstr" -> Do(e, HTextRes(t, e.n, e.x), HSetText(t, e.n, e.x))
    [] e.op = "get" -> /\ Same /\ In("result", CellRes(t, e.n, e.i, e.t), e.res)
                       /\ IF e.res # "ok" THEN TRUE
                          ELSE LET c == Cell(t, e.n, e.i) IN
                            IF e.t # "x" THEN Chk("value", c, e.v) ELSE IF Printable(c) THEN In("value as text", {Txt(x) : x \in Texts6(c)}, e.v) ELSE TRUE
    [] e.op = "hget" -> /\ Same /\ In("result", HRes(t, e.n, e.t), e.res)
                        /\ IF e.res # "ok" THEN TRUE
                           ELSE LET c == t.hdr[Hdr(t, e.n)].v IN
                             IF e.t # "x" THEN Chk("value", c, e.v) ELSE IF Printable(c) THEN In("value as text", {Txt(x) : x \in Texts6(c)}, e.v) ELSE TRUE
    [] e.op = "has" -> /\ Same /\ LET c == Col(t, e.n)  h == Hdr(t, e.n) IN
                         Chk("names", <<c # 0, IF c = 0 THEN FALSE ELSE t.cols[c].t = e.t, h # 0, IF h = 0 THEN FALSE ELSE t.hdr[h].t = e.t>>, e.got)
    [] e.op = "walk" -> /\ Same /\ LET c == IF Col(t, e.n) = 0 THEN <<>> ELSE Column(t.rows, Col(t, e.n)) IN
                          Chk("walk", CASE e.how \in {"back", "cback", "last"} -> Rev(c) [] e.how = "two" -> Odd(c) [] OTHER -> c, e.got)
    [] e.op = "iter" -> /\ Same /\ LET w == <<e.a = e.b, e.a # e.b, e.a < e.b, e.a <= e.b, e.a > e.b, e.a >= e.b, TRUE>> IN
                          Chk("positions", <<w \o w, <<e.b - e.a, e.b - e.a>>, TRUE, Len(t.rows)>>, <<e.got, e.dist, e.rows, e.len>>)
    [] e.op = "copy" -> t' = t /\ u' = t
    [] e.op = "switch" -> t' = u /\ u' = t /\ Chk("table", t', e.tab)
    [] e.op = "aprow" -> Do(e, ApRes(t, u, e.i), ApRow(t, u, e.i))
    [] e.op = "ascii" -> /\ Same /\ IF CanPrint(t) THEN Chk("output", Ascii(t), e.lines) ELSE TRUE
    [] e.op = "write" -> /\ t' = Written(t) /\ u' = u /\ Chk("stream as before", TRUE, e.same)
                         /\ LET p == ReadTfs(e.lines) IN Chk("written", [ok |-> TRUE, t |-> t'], p)
                         /\ Chk("read back", t', e.tab)
    [] e.op = "read" -> LET p == ReadTfs(e.lines) IN
                        /\ Chk("accepted", p.ok, e.res = "ok") /\ t' = (IF p.ok THEN p.t ELSE t) /\ u' = u /\ Chk("read", t', e.tab)
    [] OTHER -> FALSE
TraceInit == l = 1 /\ t = Empty /\ u = Empty
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
