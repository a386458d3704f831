---------------------------- MODULE TraceTrack ----------------------------
EXTENDS Track, CTracker, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ps, sm, pm, tk
vars == <<gvars, l, ps, sm, pm, tk>>
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
G == UNCHANGED gvars
NoSim == [have |-> FALSE]
Got(e) == [rays |-> e.rays, t |-> e.t, calls |-> e.calls, recs |-> e.recs, exc |-> e.exc]
\* component tracker: [st, len, pos, ent, exit, t, ty]
TState(k, e) == Chk("tracker", <<k.st, k.ent, k.exit, k.t, IF k.st = "undefined" THEN 0 ELSE k.len - k.pos, IF k.st = "undefined" THEN 0 ELSE k.pos>>,
                               <<e.st, e.ent, e.exit, e.t, e.rem, e.int>>)
RECURSIVE SumOf(_)
SumOf(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumOf(Tail(q))
Step(e) ==
  CASE e.op = "reset" -> tr' = <<>> /\ mis' = <<>> /\ mov' = <<>> /\ sup' = <<>> /\ ps' = <<>> /\ sm' = NoSim /\ pm' = <<>> /\ tk' = <<>>
    [] e.op = "tree" -> SetTree(e.nodes) /\ UNCHANGED <<ps, sm, pm, tk>>
    [] e.op = "apply" -> Apply(e.n, e.ops) /\ UNCHANGED <<ps, sm, pm, tk>>
    [] e.op = "clear" -> Clear(e.n) /\ UNCHANGED <<ps, sm, pm, tk>>
    [] e.op = "move" -> /\ Move(e.n, CASE e.w = "x" -> [mov[e.n] EXCEPT !.x = e.v] [] e.w = "y" -> [mov[e.n] EXCEPT !.y = e.v]
                                  [] e.w = "roll" -> [mov[e.n] EXCEPT !.k = e.v] [] OTHER -> [x |-> 0, y |-> 0, k |-> 0])
                        /\ UNCHANGED <<ps, sm, pm, tk>>
    [] e.op = "sim" -> /\ G /\ UNCHANGED <<pm, tk>> /\ ps' = <<Transport>>
         /\ sm' = [have |-> FALSE, fr |-> Frames(e.ring, e.a, e.b), ring |-> e.ring, flat |-> e.flat, inj |-> e.inj, handle |-> e.handle, out |-> e.out,
                   oall |-> e.oall, oini |-> e.oini, ofin |-> e.ofin, pats |-> e.pats,
                   src |-> IF e.how = "particle" THEN <<e.rays[1]>> ELSE e.rays, rays |-> <<>>, t |-> 0, st |-> [fr |-> <<>>, pos |-> 0]]
    [] e.op = "range" -> G /\ UNCHANGED <<ps, pm, tk>> /\ sm' = [sm EXCEPT !.fr = Frames(e.ring, e.a, e.b), !.ring = e.ring]
    [] e.op = "option" -> G /\ UNCHANGED <<ps, pm, tk>> /\ sm' = [sm EXCEPT !.flat = e.flat, !.inj = e.inj]
    [] e.op = "addp" -> G /\ UNCHANGED <<sm, pm, tk>> /\ ps' = Insert(ps, e.p @@ [ini |-> FALSE])
    [] e.op = "remp" -> G /\ UNCHANGED <<sm, pm, tk>> /\ ps' = Remove(ps, e.id) /\ Chk("removed", Has(ps, e.id), e.ok)
    [] e.op = "run" -> LET i == Initialised(ps)  r == Run(sm, i, TRUE, sm.src, 0) IN
         /\ Chk("run", r, Got(e)) /\ (IF r.exc THEN TRUE ELSE Chk("returned bunch", TRUE, e.same))
         /\ sm' = [sm EXCEPT !.have = TRUE, !.rays = r.rays, !.t = r.t] /\ ps' = i /\ G /\ UNCHANGED <<pm, tk>>
    [] e.op = "cont" -> LET r == Run(sm, ps, FALSE, sm.rays, sm.t) IN
         /\ Chk("continue", r, Got(e)) /\ (IF r.exc THEN TRUE ELSE Chk("returned bunch", TRUE, e.same))
         /\ sm' = [sm EXCEPT !.rays = r.rays, !.t = r.t] /\ G /\ UNCHANGED <<ps, pm, tk>>
    [] e.op = "track" -> LET i == Initialised(ps)  r == Run(sm, i, TRUE, e["in"], e.t0) IN
         /\ Chk("track", r, Got(e)) /\ Chk("returned bunch", TRUE, e.same)
         /\ sm' = [sm EXCEPT !.have = FALSE] /\ ps' = i /\ G /\ UNCHANGED <<pm, tk>>
    [] e.op \in {"initstep", "initbunch"} ->
         LET rs == IF e.op = "initbunch" THEN e.rays ELSE IF e.fresh \/ ~sm.have THEN sm.src ELSE sm.rays
             t == IF e.op = "initbunch" \/ e.fresh \/ ~sm.have THEN 0 ELSE sm.t IN
         /\ Chk("initialise stepping", <<rs, t, Inits(ps), <<>>>>, <<e.got, e.t, e.calls, e.recs>>)
         /\ sm' = [sm EXCEPT !.have = TRUE, !.rays = rs, !.t = t, !.st = [fr |-> sm.fr, pos |-> 1]]
         /\ ps' = Initialised(ps) /\ G /\ UNCHANGED <<pm, tk>>
    [] e.op = "step" -> LET n == sm.st.fr[sm.st.pos]  v == Visit(sm, ps, n, sm.st.pos = 1, sm.rays, sm.t) IN
         /\ Chk("current", IF tr[n].k = "patch" THEN -1 ELSE n, e.cur)
         /\ Chk("step", <<v.rays, v.t, v.calls, v.recs, sm.st.pos < Len(sm.st.fr)>>, <<e.rays, e.t, e.calls, e.recs, e.more>>)
         /\ sm' = [sm EXCEPT !.rays = v.rays, !.t = v.t, !.st.pos = @ + 1] /\ G /\ UNCHANGED <<ps, pm, tk>>
    [] e.op = "source" -> G /\ UNCHANGED <<ps, sm, pm, tk>> /\ Chk("initial bunch", <<sm.src, 0>>, <<IF Len(sm.src) = 1 THEN <<e.rays[1]>> ELSE e.rays, e.t>>)
    \* processes and steps: pm = [comps, s]
    [] e.op = "pnew" -> G /\ UNCHANGED <<sm, tk>> /\ ps' = <<>> /\ pm' = [comps |-> e.comps, s |-> 0]
    [] e.op = "padd" -> G /\ UNCHANGED <<sm, tk, pm>> /\ ps' = Insert(ps, e.p @@ [ini |-> FALSE])
    [] e.op = "prem" -> G /\ UNCHANGED <<sm, tk, pm>> /\ ps' = Remove(ps, e.id) /\ Chk("removed", Has(ps, e.id), e.ok)
    [] e.op = "pclear" -> G /\ UNCHANGED <<sm, tk, pm>> /\ ps' = <<>>
    [] e.op = "plog" -> G /\ UNCHANGED <<sm, tk, pm, ps>>
    [] e.op = "pinit" -> G /\ UNCHANGED <<sm, tk, ps>> /\ pm' = [pm EXCEPT !.s = 0] /\ Chk("initialise", <<Inits(ps), 0>>, <<e.calls, e.s>>)
    [] e.op = "ptrack" -> LET c == pm.comps[e.c] @@ [n |-> e.c]  r == TrackComp(ps, c, <<>>, FALSE) IN
         /\ Chk("steps", r.calls, e.calls) /\ Chk("integrated length", pm.s + c.len, e.s)
         /\ pm' = [pm EXCEPT !.s = @ + c.len] /\ G /\ UNCHANGED <<sm, tk, ps>>
    \* component tracker
    [] e.op = "tnew" -> G /\ UNCHANGED <<sm, pm, ps>> /\ Chk("override", TRUE, e.over)
                        /\ tk' = NewTracker
    [] e.op = "tprep" -> G /\ UNCHANGED <<sm, pm, ps>> /\ tk' = TPrepare(tk, e.ty, e.len) /\ TState(tk', e)
    [] e.op = "tstep" -> /\ G /\ UNCHANGED <<sm, pm, ps>>
         /\ IF TBeyond(tk, e.ds) THEN tk' = tk /\ Chk("beyond exit", <<TRUE, -1>>, <<e.thrown, e.did>>)
            ELSE tk' = TStepTo(tk, e.ds) /\ Chk("step", <<FALSE, tk.len - tk.pos - e.ds, IF IsD(tk) THEN e.ds ELSE -1>>, <<e.thrown, e.ret, e.did>>)
         /\ TState(tk', e)
    [] e.op = "tall" -> G /\ UNCHANGED <<sm, pm, ps>> /\ tk' = TStepTo(tk, tk.len) /\ Chk("whole", IF IsD(tk) THEN tk.len ELSE -1, e.did) /\ TState(tk', e)
    [] e.op = "treset" -> G /\ UNCHANGED <<sm, pm, ps>> /\ tk' = TReset(tk) /\ TState(tk', e)
    [] e.op = "subdiv" -> G /\ UNCHANGED <<sm, pm, ps, tk>>
         /\ Chk("same in one or several steps", <<0, <<>>, <<e.len, e.len>>, 3, 3>>, <<e.diff, e.rems, e.t, e.st1, e.st2>>)
         /\ (e.ty = "Monitor" => Chk("measurements", <<<<1, 1>>, TRUE, IF e.rays[1][2] = 0 THEN -1 ELSE IF e.len = 0 THEN 0 ELSE e.k + e.len \div 2>>, <<e.meas, e.msame, e.at>>))
    [] OTHER -> FALSE
TraceInit == tr = <<>> /\ mis = <<>> /\ mov = <<>> /\ sup = <<>> /\ l = 1 /\ ps = <<>> /\ sm = NoSim /\ pm = <<>> /\ tk = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
