------------------------------- MODULE MCFb -------------------------------
(* every short history of a feedback on a plant; the settings written are
   told from the history alone *)
EXTENDS Fb, Json, TLC
CONSTANTS N, Show
VARIABLES f, h, c, past, since
vars == <<f, h, c, past, since>>
H == <<1, 2>>
Cases == << [M |-> <<<<I(2)>>>>, P |-> <<<<H>>>>, d |-> <<I(3)>>, a |-> <<I(1)>>],
            [M |-> <<<<I(1)>>, <<I(1)>>>>, P |-> <<<<H, H>>>>, d |-> <<I(3), I(1)>>, a |-> <<I(1)>>],
            [M |-> <<<<I(1), I(-1)>>>>, P |-> <<<<H>>, <<<<-1, 2>>>>>>, d |-> <<I(3)>>, a |-> <<I(1), I(0)>>],
            [M |-> <<<<I(1), I(1)>>, <<I(0), I(2)>>>>, P |-> <<<<I(1), <<-1, 2>>>>, <<I(0), H>>>>, d |-> <<I(0), I(4)>>, a |-> <<I(1), I(2)>>],
            [M |-> <<<<I(1), I(1)>>, <<I(1), I(1)>>>>, P |-> <<<<<<1, 4>>, <<1, 4>>>>, <<<<1, 4>>, <<1, 4>>>>>>, d |-> <<I(0), I(4)>>, a |-> <<I(1), I(2)>>] >>
Rev(v) == IF Len(v) = 1 THEN <<I(-1)>> ELSE <<I(2), I(-1)>>
Ops(k) == {[op |-> "apply"], [op |-> "nominal"], [op |-> "store"], [op |-> "plant", M |-> Cases[k].M, d |-> Cases[k].d], [op |-> "signals", v |-> Rev(Cases[k].d)], [op |-> "setpoints", v |-> Rev(Cases[k].d)]}
  \cup {[op |-> "gain", g |-> H]} \cup {[op |-> "delay", n |-> n] : n \in 1..3}
  \cup (IF f.stored = <<>> THEN {} ELSE {[op |-> "restore"]})
Eff(o) == CASE o.op = "apply" -> Applied(f) [] o.op = "nominal" -> [f EXCEPT !.sp = Signals(f)] [] o.op = "store" -> [f EXCEPT !.stored = f.a]
            [] o.op = "restore" -> [f EXCEPT !.a = f.stored] [] o.op = "plant" -> [f EXCEPT !.closed = TRUE, !.M = o.M, !.d = o.d]
            [] o.op = "signals" -> [f EXCEPT !.s = o.v, !.closed = FALSE] [] o.op = "setpoints" -> [f EXCEPT !.sp = o.v]
            [] o.op = "gain" -> [f EXCEPT !.g = o.g] [] OTHER -> SetDelay(f, o.n)
Start(k) == [op |-> "system", sig |-> Cases[k].d, act |-> Cases[k].a, M |-> Cases[k].M, P |-> Cases[k].P, arrays |-> k \in {2, 4}]
(* past: the settings worked out since the delay n was set; since: <<n>> *)
Law(o, n) ==
  /\ (o.op \notin {"apply", "restore"} => n.a = f.a)
  /\ (o.op = "apply" =>
       LET p == Append(past, Wanted(f))  k == Len(p)  due == k - since + 1 IN
       /\ n.a = (IF due < 1 THEN Zeros(Len(f.a)) ELSE p[due])
       /\ Len(n.q) = since - 1 /\ n.g = f.g /\ n.sp = f.sp /\ n.stored = f.stored)
  (* one application at full gain takes away all the error which the actuators can reach *)
  /\ (o.op = "apply" /\ f.closed /\ f.g = One /\ since = 1 => MulMV(f.P, Error(n)) = Zeros(Len(f.a)))
  (* and at gain g the part 1 - g of it is left *)
  /\ (o.op = "apply" /\ f.closed /\ since = 1 => MulMV(f.P, Error(n)) = ScaleV(Sub(One, f.g), MulMV(f.P, Error(f)), 1))
  /\ (o.op = "nominal" => Error(n) = Zeros(Len(f.sp)) /\ Wanted(n) = f.a)
  /\ (o.op = "restore" => n.a = f.stored)
Init == \E k \in 1..Len(Cases) : /\ Assert(Penrose(Cases[k].M, Cases[k].P), k)
          /\ c = k /\ f = New(Cases[k].d, Cases[k].a, Cases[k].P) /\ h = (IF Show THEN <<Start(k)>> ELSE <<0>>) /\ past = <<>> /\ since = 1
Next == /\ Len(h) < N + 1
        /\ \E o \in Ops(c) : \E n \in {Eff(o)} :
             /\ Assert(Law(o, n), <<"law", o, f, n>>)
             /\ f' = n /\ h' = Append(h, IF Show THEN o ELSE 0) /\ c' = c
             /\ past' = (IF o.op = "apply" THEN Append(past, Wanted(f)) ELSE IF o.op = "delay" THEN <<>> ELSE past)
             /\ since' = (IF o.op = "delay" THEN o.n ELSE since)
             /\ (IF Show /\ Len(h') = N + 1 THEN PrintT("SCRIPT" \o ToJson(h')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
