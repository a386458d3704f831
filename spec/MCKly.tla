------------------------------ MODULE MCKly ------------------------------
(* every short history of settings of two klystrons, which share a cavity *)
EXTENDS Kly, Json, TLC
CONSTANTS N, Show
VARIABLES cav, kly, h
vars == <<cav, kly, h>>
U == {<<One, Zero>>, <<<<3, 5>>, <<4, 5>>>>, <<Zero, I(-1)>>}
V == {I(0), I(2), I(-1)}
K(cs, m, v, u) == [op |-> "klystron", cs |-> cs, mode |-> m, v |-> v, u |-> u, dflt |-> FALSE]
Start == <<[op |-> "cavities", z |-> <<<<I(3), I(0)>>, <<I(0), I(4)>>, <<I(1), I(-4)>>>>, ty |-> <<"TW", "SW", "TR">>, len |-> <<One, I(2), <<1, 2>>>>],
           K(<<1, 2>>, "sum", I(5), <<<<3, 5>>, <<4, 5>>>>)>>
Ops == {[op |-> "volt", k |-> k, v |-> v] : k \in 1..2, v \in V}
  \cup {[op |-> "phase", k |-> k, u |-> u, turn |-> 0] : k \in 1..2, u \in U}
  \cup {[op |-> "phasor", k |-> k, v |-> v, u |-> <<Zero, I(-1)>>] : k \in 1..2, v \in {I(1), I(2)}}
  \cup {[op |-> "cav", c |-> 2, v |-> I(3), u |-> <<One, Zero>>, how |-> "phasor"]}
Apply(k, o) == CASE o.op = "volt" -> [k EXCEPT !.v = o.v] [] o.op = "phase" -> [k EXCEPT !.u = o.u] [] OTHER -> [k EXCEPT !.v = o.v, !.u = o.u]
Same(x, y) == IsBad(x) \/ IsBad(y) \/ x = y
SameC(a, b) == Same(a[1], b[1]) /\ Same(a[2], b[2])
Law(o, w, n, k) ==
  LET cs == k.cs  m == Len(cs)  z == Vec(k.v, k.u)  s0 == SumOf(w, cs, 1) IN
  /\ SameC(SumOf(n, cs, 1), z)
  /\ \A i \in 1..Len(w) : (\A j \in 1..m : cs[j] # i) => n[i] = w[i]
  /\ (~k.sum \/ s0 = CZero) => \A i, j \in 1..m : n[cs[i]] = n[cs[j]] /\ SameC(Scale(I(m), n[cs[i]]), z)
  /\ (k.sum /\ s0 # CZero) => \A i, j \in 1..m : SameC(CMul(n[cs[i]], w[cs[j]]), CMul(n[cs[j]], w[cs[i]])) /\ SameC(CMul(n[cs[i]], s0), CMul(w[cs[i]], z))
  (* again: nothing changes *)
  /\ (\A i \in 1..m : ~CBad(n[cs[i]])) /\ k.v # Zero => \A i \in 1..m : SameC(Drive(n, k)[cs[i]], n[cs[i]])
Init == \E b \in BOOLEAN :
        LET c == Start[1].z  k1 == [cs |-> <<1, 2>>, sum |-> TRUE, v |-> I(5), u |-> <<<<3, 5>>, <<4, 5>>>>]
            k2 == [cs |-> <<2, 3>>, sum |-> b, v |-> One, u |-> <<One, Zero>>] IN
        /\ Assert(Fits(c, k1) /\ Fits(c, k2), "start") /\ kly = <<k1, k2>> /\ cav = Taken(Taken(c, k1), k2)
        /\ h = IF Show THEN Start \o <<K(<<2, 3>>, IF b THEN "sum" ELSE "balanced", One, <<One, Zero>>)>> ELSE <<0, 0, 0>>
Next == /\ Len(h) < N + 3
        /\ \E o \in Ops :
             \E k \in {IF o.op = "cav" THEN kly[1] ELSE Apply(kly[o.k], o)} :
             \E n \in {IF o.op = "cav" THEN [cav EXCEPT ![o.c] = Vec(o.v, o.u)] ELSE Drive(cav, k)} :
             /\ (IF o.op # "cav" THEN Assert(Law(o, cav, n, k), <<"law", o, cav, n>>) ELSE TRUE)
             (* sums which vanish only by cancellation are not told from small ones *)
             /\ \A j \in 1..2 : LET s == SumOf(n, kly[j].cs, 1) IN (s = CZero) => \A i \in 1..Len(kly[j].cs) : n[kly[j].cs[i]] = CZero
             /\ kly' = IF o.op = "cav" THEN kly ELSE [kly EXCEPT ![o.k] = k]
             /\ cav' = n /\ h' = Append(h, IF Show THEN o ELSE 0)
             /\ (IF Show /\ Len(h') = N + 3 THEN PrintT("SCRIPT" \o ToJson(h')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
