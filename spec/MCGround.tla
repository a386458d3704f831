----------------------------- MODULE MCGround -----------------------------
(* every short history of two motions on three supports; the numbers of a stream are chosen freely but once for each key *)
EXTENDS Ground, Json, TLC
CONSTANTS N, Show
VARIABLES s, g, h
vars == <<s, g, h>>
Sup == <<<<<<5, 1>>, <<0, 1>>, <<0, 1>>>>, <<<<1, 1>>, <<3, 1>>, <<4, 1>>>>, <<<<5, 1>>, <<0, 1>>, <<0, 1>>>>>>
Mk(f, A, v) == [op |-> "motion", flat |-> f, A |-> A, vib |-> v, on |-> <<1, 2, 3>>, ref |-> <<<<0, 1>>, <<0, 1>>>>]
Start == {<<[op |-> "init", how |-> "init", seed |-> <<"5">>, one |-> TRUE], [op |-> "supports", at |-> Sup], Mk(f, <<1, 1>>, <<0, 1>>), [op |-> "mseed", i |-> 1, seed |-> "1"],
           Mk(f, <<4, 1>>, v), [op |-> "mseed", i |-> 2, seed |-> "2"]>> : f \in BOOLEAN, v \in {<<0, 1>>, <<2, 1>>}}
Ops == {[op |-> "step", i |-> i, dt |-> <<4, 1>>] : i \in {1, 2}} \cup {[op |-> "step", i |-> 1, dt |-> <<9, 1>>]}
  \cup {[op |-> "mseed", i |-> i, seed |-> "1"] : i \in {1, 2}} \cup {[op |-> "mreset", i |-> 1], [op |-> "again"]}
  \cup {[op |-> "still", i |-> 1], [op |-> "mode", i |-> 1, inc |-> TRUE], [op |-> "mode", i |-> 2, inc |-> TRUE], [op |-> "shake", i |-> 1, vib |-> <<1, 2>>]}
Can(o) == (o.op \in {"mode", "shake"} => g.m[1].flat) /\ (o.op = "mode" => ~Noisy(g.m[o.i])) /\ (o.op = "step" => g.m[1].seed # g.m[2].seed \/ h[Len(h)].op \in {"mseed", "mreset"} \/ (h[Len(h)].op = "step" /\ h[Len(h)].i = o.i))
(* displacement of a step: some number of the stream, here its position *)
Ny(m, a, z) == LET RECURSIVE F(_, _, _)
                   F(y, k, c) == IF k > Len(m.on) THEN y ELSE LET d == (z * a.unit[k][1]) \div a.unit[k][2] e == c + d IN
                     F([y EXCEPT ![m.on[k]] = CASE a.see = "offset" -> d [] a.see = "more" -> @ + d [] OTHER -> m.walk[k] + e], k + 1, e)
               IN F(g.y, 1, 0)
Eff(o) ==
  CASE o.op = "step" -> LET m == g.m[o.i] a == Ask(m, g, o.dt) ny == Ny(m, a, 1000 + Len(Hist(s, Stream(m)))) IN
          <<Asked(s, Stream(m), a.q), [g EXCEPT !.y = ny, !.m[o.i] = Moved(m, g, s, o.dt, ny)], a>>
    [] o.op = "still" -> <<s, [g EXCEPT !.y = Laid(@, g.m[o.i].on, 0), !.m[o.i] = Stilled(@)], 0>>
    [] o.op = "mseed" -> <<Restart(s, "ATL " \o o.seed), [g EXCEPT !.m[o.i].seed = o.seed], 0>>
    [] o.op = "mreset" -> <<Restart(s, Stream(g.m[o.i])), g, 0>>
    [] o.op = "again" -> <<Again(s), g, 0>>
    [] o.op = "mode" -> <<s, [g EXCEPT !.m[o.i].inc = o.inc], 0>>
    [] OTHER -> <<s, IF g.m[o.i].inc THEN g ELSE [g EXCEPT !.m[o.i].vib = o.vib], 0>>
Law(o, n) ==
  /\ (o.op = "step" => LET m == g.m[o.i] d == Seen(m, g, n[3].see, n[2].y, 3) z == InUnits(d, n[3].unit) IN
        Fits(z, d, n[3].unit) /\ n[2].m[3 - o.i] = g.m[3 - o.i] /\ Hist(n[1], Stream(m)) # <<>>)   \* what is learnt fits what is seen
  /\ (o.op = "still" => n[2].m[o.i].t = Zero /\ n[2].y = <<0, 0, 0>>)
  /\ \A i \in {1, 2} : ~(n[2].m[i].inc /\ Noisy(n[2].m[i]))
  /\ (o.op \in {"mseed", "mreset", "again"} => Hist(n[1], Stream(n[2].m[IF o.op = "again" THEN 2 ELSE o.i])) = <<>> /\ n[2].y = g.y)
Begin == [NoGround EXCEPT !.sup = Sup, !.y = <<0, 0, 0>>]
Init == \E p \in Start : /\ s = Seeded(Fresh, <<"5">>) /\ h = (IF Show THEN p ELSE <<p[6]>>)
                         /\ g = [Begin EXCEPT !.m = <<[Motion(Begin, p[3]) EXCEPT !.seed = "1"], [Motion(Begin, p[5]) EXCEPT !.seed = "2"]>>]
Next == /\ Len(h) < N + (IF Show THEN 6 ELSE 1)
        /\ \E o \in {x \in Ops : Can(x)} : \E n \in {Eff(o)} :
             /\ Assert(Law(o, n), <<"law", o, s, g, n>>) /\ s' = n[1] /\ g' = n[2] /\ h' = Append(h, IF Show \/ o.op \in {"step", "mseed"} THEN o ELSE [op |-> "x"])
             /\ (IF Show /\ Len(h') = N + 6 /\ o.op = "step" THEN PrintT("SCRIPT" \o ToJson(h')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
===========================================================================
