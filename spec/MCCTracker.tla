--------------------------- MODULE MCCTracker ---------------------------
\* every way of stepping through components of up to MaxLen units, with steps of zero length and steps too far
EXTENDS CTracker, Json, TLC
CONSTANTS MaxLen, MaxOps
VARIABLES tk, hist, done, total
vars == <<tk, hist, done, total>>
Init == tk = NewTracker /\ hist = <<>> /\ done = 0 /\ total = 0
H(r) == hist' = Append(hist, r)
Free == tk.st \in {"undefined", "finished"}
Prep == Free /\ \E len \in 0..MaxLen : tk' = TPrepare(tk, "Drift", len) /\ H([op |-> "tprep", ty |-> "Drift", len |-> len]) /\ UNCHANGED <<done, total>>
Going == tk.st \in {"initialised", "tracking"}
Step(ds) == /\ Going /\ H([op |-> "tstep", ds |-> ds])
            /\ IF TBeyond(tk, ds) THEN UNCHANGED <<tk, done, total>>
               ELSE /\ tk' = TStepTo(tk, ds) /\ done' = (IF tk'.st = "finished" THEN done + 1 ELSE done) /\ total' = total + ds
All == tk.st = "initialised" /\ tk' = TStepTo(tk, tk.len) /\ H([op |-> "tall"]) /\ done' = done + 1 /\ total' = total + tk.len
Reset == Going /\ tk' = TReset(tk) /\ H([op |-> "treset"]) /\ UNCHANGED <<done, total>>
Next == /\ Len(hist) < MaxOps
        /\ (Prep \/ (\E ds \in 0..(MaxLen + 1) : Step(ds)) \/ All \/ Reset)
        /\ (IF Len(hist') = MaxOps THEN PrintT("SCRIPT" \o ToJson(hist')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
\* one exit per component finished, one entrance per component started, time = distance tracked
Exits == tk.exit = done
Entrances == tk.ent >= done /\ (tk.in => tk.ent > 0)
OneMore == tk.st = "initialised" => ~tk.in
Time == tk.t = total
Bounds == 0 <= tk.pos /\ tk.pos <= tk.len /\ (tk.st = "finished" => tk.pos = tk.len)
=========================================================================
