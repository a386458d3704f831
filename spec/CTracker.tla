----------------------------- MODULE CTracker -----------------------------
(* Tracking through one component in steps: states and what is applied.      *)
(* k = [st, len, pos, ent, exit, t, ty, in]: ent and exit count the entrance *)
(* and exit maps applied, t is the time of the bunch, in: entrance passed.   *)
EXTENDS Integers, Sequences
NewTracker == [st |-> "undefined", len |-> 0, pos |-> 0, ent |-> 0, exit |-> 0, t |-> 0, ty |-> "", in |-> FALSE]
TPrepare(k, ty, len) == [k EXCEPT !.st = "initialised", !.len = len, !.pos = 0, !.ty = ty, !.in = FALSE]
TBeyond(k, ds) == k.pos + ds > k.len \/ ds < 0
IsD(k) == k.ty = "Drift"     \* the component type whose integrator is observed
TStepTo(k, ds) == LET p == k.pos + ds  fin == p = k.len IN
   [k EXCEPT !.pos = p, !.st = IF fin THEN "finished" ELSE "tracking", !.t = @ + ds, !.in = TRUE,
             !.ent = IF IsD(k) /\ ~k.in THEN @ + 1 ELSE @, !.exit = IF IsD(k) /\ fin THEN @ + 1 ELSE @]
TReset(k) == [k EXCEPT !.st = "undefined"]
=============================================================================
