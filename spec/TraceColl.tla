---------------------------- MODULE TraceColl ----------------------------
EXTENDS Coll, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, el, pr, tn, st, src, off, lm, nc
vars == <<l, el, pr, tn, st, src, off, lm, nc>>
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Tn0 == [first |-> 0, turn |-> 0]
None == [x |-> 0]
\* the outcome of a pass or of a step
Outcome(s, e) ==
  /\ Chk("bunch", s.ps, e.ps)
  /\ (IF pr.index THEN Chk("index list", s.ix, e.ix) ELSE TRUE)
  /\ Chk("loss threshold", s.thrown, e.thrown)
  /\ \A i \in 1..Len(e.outs) : Chk("number of reports", Len(s.reps), Len(e.outs[i])) /\ Chk("reports", ToSet(s.reps), ToSet(e.outs[i]))
  /\ Chk("detailed output", ToSet(Selected(s.reps, el, pr.pats)), ToSet(e.det)) /\ Chk("number of detailed reports", Len(Selected(s.reps, el, pr.pats)), Len(e.det))
\* real scattering: only conservation can be decided
Conserved(old, e) ==
  LET lost == {e.outs[1][i][1] : i \in 1..Len(e.outs[1])} IN
  /\ Chk("conservation", Ids(old.ps), Ids(e.ps) \cup lost) /\ Chk("counted once", Len(old.ps), Len(e.ps) + Len(e.outs[1]))
  /\ Chk("all outputs alike", [i \in 1..Len(e.outs) |-> e.outs[1]], e.outs)
  /\ Chk("order", TRUE, \A i, j \in 1..Len(e.ps) : i < j => e.ps[i][1] < e.ps[j][1])
  /\ Chk("places", TRUE, \A i \in 1..Len(e.outs[1]) : LET r == e.outs[1][i] IN r[2] \in 1..Len(el) /\ r[3] >= 0 /\ r[3] <= el[r[2]].len /\ el[r[2]].ty = "Collimator")
  /\ (IF pr.index THEN Chk("index list", [i \in 1..Len(e.ps) |-> e.ps[i][1] - 1], e.ix) ELSE TRUE)
Un1 == UNCHANGED <<lm, nc>>
Step(e) ==
  CASE e.op = "reset" -> el' = <<>> /\ pr' = None /\ tn' = Tn0 /\ st' = None /\ src' = <<>> /\ off' = 0 /\ lm' = None /\ nc' = None
    [] e.op = "machine" -> el' = e.elems /\ UNCHANGED <<pr, tn, st, src, off>> /\ Un1
    [] e.op = "sim" -> src' = e.src /\ off' = e.off /\ UNCHANGED <<el, pr, tn, st>> /\ Un1
    [] e.op = "proc" -> pr' = e.pr /\ tn' = Tn0 /\ UNCHANGED <<el, st, src, off>> /\ Un1
    [] e.op = "settings" -> pr' = [pr EXCEPT !.bin = e.bin, !.thr = e.thr] /\ UNCHANGED <<el, tn, st, src, off>> /\ Un1
    [] e.op \in {"cont", "step"} /\ st.thrown -> Chk("a stopped run is not continued", TRUE, e.skipped) /\ UNCHANGED <<el, pr, tn, st, src, off>> /\ Un1
    [] e.op \in {"run", "cont", "track"} ->
         LET s0 == IF e.op = "run" THEN Fresh(pr, src) ELSE IF e.op = "track" THEN Fresh(pr, e["in"]) ELSE Again(st)
             w == Pass(pr, el, Order(Len(el), off), tn, s0) IN
         /\ st' = w.st /\ tn' = w.tn /\ Outcome(w.st, e) /\ UNCHANGED <<el, pr, src, off>> /\ Un1
    [] e.op = "begin" -> /\ st' = Fresh(pr, e["in"]) @@ [at |-> 1] /\ Chk("begin", <<e["in"], IF pr.index THEN UpTo(Len(e["in"])) ELSE <<>>>>, <<e.ps, e.ix>>)
                         /\ UNCHANGED <<el, pr, tn, src, off>> /\ Un1
    [] e.op = "step" -> LET n == Order(Len(el), off)[st.at]  t2 == Turn(tn, n)  s2 == Element(pr, el[n], n, t2.turn, Again(st)) IN
         /\ st' = [s2 EXCEPT !.at = @ + 1] /\ tn' = t2 /\ Outcome(s2, e) /\ UNCHANGED <<el, pr, src, off>> /\ Un1
    [] e.op = "proton" -> LET s0 == Fresh(pr, e["in"]) IN Conserved(s0, e) /\ UNCHANGED <<el, pr, tn, st, src, off>> /\ Un1
    \* loss maps
    [] e.op = "lmap" -> lm' = [el |-> e.elems, mode |-> e.mode, warm |-> <<>>, losses |-> <<>>, cls |-> <<>>] /\ UNCHANGED <<el, pr, tn, st, src, off, nc>>
    [] e.op = "warm" -> lm' = [lm EXCEPT !.warm = Append(@, e.r)] /\ Chk("warm regions", Append(lm.warm, e.r), e.got) /\ UNCHANGED <<el, pr, tn, st, src, off, nc>>
    [] e.op = "nowarm" -> lm' = [lm EXCEPT !.warm = <<>>] /\ Chk("warm regions", <<>>, e.got) /\ UNCHANGED <<el, pr, tn, st, src, off, nc>>
    [] e.op = "dispose" -> /\ lm' = [lm EXCEPT !.losses = Append(@, <<e.e, e.p>>), !.cls = Append(@, Class(lm.el[e.e], lm.warm))]
                           /\ UNCHANGED <<el, pr, tn, st, src, off, nc>>
    [] e.op = "final" ->
         /\ UNCHANGED <<el, pr, tn, st, src, off, lm, nc>>
         /\ Chk("loss map", TRUE, MapOk(lm.el, lm.mode, lm.losses, e.got))
         /\ Chk("total", Len(lm.losses), Sum([i \in 1..Len(e.got) |-> e.got[i][2]]))
         /\ \A i \in 1..Len(e.got) : Chk("class", TRUE, \E j \in 1..Len(lm.losses) : Key(lm.mode, lm.losses[j]) = e.got[i][1] /\ lm.cls[j] = e.got[i][3])
         /\ Chk("text", [i \in 1..Len(e.got) |-> <<lm.el[e.got[i][1][1]].nm, e.got[i][2], e.got[i][3]>>], e.text)
    \* non-finite check
    [] e.op = "nproc" -> nc' = [cull |-> e.cull, known |-> {}, ps |-> <<>>] /\ UNCHANGED <<el, pr, tn, st, src, off, lm>>
    [] e.op = "nbunch" -> nc' = [nc EXCEPT !.ps = [i \in 1..Len(e.ids) |-> <<i, e.ids[i], {}>>]] /\ UNCHANGED <<el, pr, tn, st, src, off, lm>>
    [] e.op = "npoison" -> nc' = [nc EXCEPT !.ps = Poisoned(@, <<<<e.tag, e.c>>>>)] /\ UNCHANGED <<el, pr, tn, st, src, off, lm>>
    [] e.op = "ncheck" -> LET q == Poisoned(nc.ps, e.q)  r == NewReps(q, 0, nc.known) k == IF nc.cull THEN Good(q) ELSE q IN
         /\ nc' = [nc EXCEPT !.ps = k, !.known = @ \cup {r[i][2] : i \in 1..Len(r)}]
         /\ Chk("particles", [i \in 1..Len(k) |-> <<k[i][1], k[i][2], Cardinality(k[i][3])>>], e.ps) /\ Chk("reports", r, e.reps)
         /\ UNCHANGED <<el, pr, tn, st, src, off, lm>>
    [] OTHER -> FALSE
TraceInit == l = 1 /\ el = <<>> /\ pr = None /\ tn = Tn0 /\ st = None /\ src = <<>> /\ off = 0 /\ lm = None /\ nc = None
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
