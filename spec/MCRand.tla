------------------------------ MODULE MCRand ------------------------------
(* every short history of seeding and requests *)
EXTENDS Rand, Json, TLC
CONSTANTS N, Show
VARIABLES s, h
vars == <<s, h>>
Rq(k) == [kind |-> k, a |-> <<0, 1>>, b |-> <<1, 1>>, c |-> <<1, 1>>]
Draw(k) == [op |-> "draw", n |-> 1] @@ Rq(k)
Ops == {[op |-> "init", how |-> w, seed |-> d, one |-> FALSE] : w \in {"init"}, d \in {<<"1">>, <<"2", "3">>}}
  \cup {[op |-> "init", how |-> "reset", seed |-> <<"1">>, one |-> TRUE], [op |-> "again"], [op |-> "relocal", name |-> "a"]}
  \cup {Draw(k) : k \in {"normal", "cut", "HB"}}
  \cup {[op |-> "raw", name |-> n, n |-> 1] : n \in {"", "a", "b"}}
  \cup {[op |-> "hold", slot |-> 1, name |-> "a"], [op |-> "rawheld", slot |-> 1, n |-> 1]}
Can(o) == IF o.op = "rawheld" THEN s.held # {} ELSE IF o.op = "again" \/ (o.op = "raw" /\ o.name = "") THEN s.on ELSE TRUE
On == IF s.on THEN s ELSE Seeded(s, <<"drawn">>)
Name(o) == IF o.op = "draw" THEN StreamOf(o.kind) ELSE IF o.op = "raw" THEN o.name ELSE IF o.op = "rawheld" THEN Held(s, o.slot) ELSE IF o.op \in {"relocal", "hold"} THEN o.name ELSE "none"
Eff(o) ==
  CASE o.op = "init" -> Seeded(s, o.seed) [] o.op = "again" -> Again(s) [] o.op = "relocal" -> Restart(On, o.name)
    [] o.op = "hold" -> Hold(On, o.slot, o.name) [] o.op = "draw" -> Asked(On, Name(o), Request(o)) [] OTHER -> Asked(On, Name(o), <<"raw">>)
Streams == {"", "a", "b", Photon}
Law(o, n) ==
  /\ (o.op \in {"init", "again"} => \A x \in Streams : Hist(n, x) = <<>>)          \* all streams start again with the seed
  /\ (o.op \notin {"init", "again"} /\ s.on => n.seed = s.seed /\ \A x \in Streams \ {Name(o)} : Key(n, x) = Key(s, x))  \* and are not changed by others
  /\ (o.op = "init" => n.seed = o.seed)
  /\ (o.op = "relocal" => \A d \in {<<"1">>} : Key(n, "a") = Key(Seeded(s, n.seed), "a"))  \* restarted is as seeded anew
  /\ n.held = (IF o.op = "hold" THEN {<<1, "a">>} ELSE s.held)
Init == s = Fresh /\ h = <<>>
Next == /\ Len(h) < N
        /\ \E o \in {x \in Ops : Can(x)} : \E n \in {Eff(o)} :
             /\ Assert(Law(o, n), <<"law", o, s, n>>) /\ s' = n /\ h' = Append(h, IF Show THEN o ELSE 0)
             /\ (IF Show /\ Len(h') = N /\ o.op \in {"raw", "rawheld", "draw"} THEN PrintT("SCRIPT" \o ToJson(h')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
===========================================================================
