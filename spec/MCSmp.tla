------------------------------- MODULE MCSmp -------------------------------
(* every short history of a bunch of macroparticles; what stays is told from the physics *)
EXTENDS Smp, Json, TLC
CONSTANTS N, Show
VARIABLES b, h
vars == <<b, h>>
H == <<1, 2>>
D4 == <<<<One>>, <<Zero, One>>, <<H, Zero, I(4)>>, <<Zero, <<-1, 2>>, One, One>>>>
S(k, x, ct, dp) == [q |-> k, m |-> <<x, One, Zero, Neg(H), ct, dp>>, c |-> D4]
S1 == S(One, I(2), One, One)
S2 == S(I(3), Zero, I(-1), Zero)
S3 == S(I(2), I(-1), One, Neg(H))
Ops == {[op |-> "sadd", given |-> p, sort |-> st] : p \in {S1, S3}, st \in BOOLEAN} \cup {[op |-> "ssort"]}
  \cup {[op |-> "sadjust", what |-> w] : w \in {"mean", "time"}} \cup {[op |-> "sref", what |-> "P0", x |-> I(3)], [op |-> "sfile"]}
  \cup {[op |-> "sshift", p |-> [v |-> <<One, Zero, H, Zero, One, H>>, id |-> 0]]}
  \cup {[op |-> "sturn", x |-> x, y |-> Zero, u |-> u] : x \in {Zero, One}, u \in {<<Zero, One>>, <<<<3, 5>>, <<4, 5>>>>}}
RECURSIVE Ins(_, _), Sorted(_)
Ins(p, s) == IF s = <<>> THEN <<p>> ELSE IF Less(p.m[5], s[1].m[5]) THEN <<p>> \o s ELSE <<s[1]>> \o Ins(p, Tail(s))
Sorted(s) == IF s = <<>> THEN <<>> ELSE Ins(s[1], Sorted(Tail(s)))
Eff(o) ==
  CASE o.op = "sadd" -> [b EXCEPT !.s = IF o.sort THEN Sorted(Append(@, o.given)) ELSE Append(@, o.given)]
    [] o.op = "ssort" -> [b EXCEPT !.s = Sorted(@)]
    [] o.op = "sadjust" -> IF o.what = "time" THEN AdjustT(b) ELSE AdjustP(b)
    [] o.op = "sref" -> [b EXCEPT !.P0 = o.x]
    [] o.op = "sshift" -> [b EXCEPT !.s = Shift(@, o.p.v, 1)]
    [] o.op = "sturn" -> [b EXCEPT !.s = Turned(@, o.x, o.y, o.u, 1)]
    [] OTHER -> [b EXCEPT !.s = Sorted(@), !.sg = Sign(Qtot(b.s, 1))]
Same(x, y) == IsBad(x) \/ IsBad(y) \/ x = y
Mom(x, k) == Mul(x.P0, Add(One, x.s[k].m[6]))
Arr(x, k) == Sub(x.T, x.s[k].m[5])
Keeps(x, y, i) == Same(Mean(x.s, i), Mean(y.s, i)) /\ \A j \in 1..i : Same(Cov(x.s, i, j), Cov(y.s, i, j))
Law(o, n) ==
  /\ (o.op # "sadd" => Qtot(n.s, 1) = Qtot(b.s, 1) /\ Len(n.s) = Len(b.s))
  /\ (o.op = "sadjust" =>
        /\ (\A k \in 1..Len(b.s) : Same(Mom(b, k), Mom(n, k)) /\ Same(Arr(b, k), Arr(n, k)))
        /\ (o.what = "mean" => Same(Mean(n.s, 6), Zero)) /\ (o.what = "time" => Same(Mean(n.s, 5), Zero)) /\ \A i \in 1..4 : Keeps(b, n, i))
  /\ (o.op \in {"ssort", "sfile"} => (\A i \in 1..6 : Keeps(b, n, i)) /\ Ascending(n.s) /\ SameSlices(b.s, n.s))
  /\ (o.op = "sshift" => \A i \in 1..6 : Same(Mean(n.s, i), Add(Mean(b.s, i), o.p.v[i])) /\ \A j \in 1..i : Same(Cov(b.s, i, j), Cov(n.s, i, j)))
  (* turning the axes keeps the area, the moments of the mixture turn as those of each part *)
  /\ (o.op = "sturn" =>
        /\ Same(Add(Cov(b.s, 1, 1), Cov(b.s, 3, 3)), Add(Cov(n.s, 1, 1), Cov(n.s, 3, 3))) /\ Same(Add(Cov(b.s, 2, 2), Cov(b.s, 4, 4)), Add(Cov(n.s, 2, 2), Cov(n.s, 4, 4)))
        /\ Same(Sub(Cov(b.s, 4, 1), Cov(b.s, 3, 2)), Sub(Cov(n.s, 4, 1), Cov(n.s, 3, 2))) /\ Same(Mean(b.s, 6), Mean(n.s, 6)) /\ Same(Cov(b.s, 6, 5), Cov(n.s, 6, 5))
        /\ Same(Mean(n.s, 1), Add(Mul(o.u[1], Sub(Mean(b.s, 1), o.x)), Mul(o.u[2], Sub(Mean(b.s, 3), o.y)))))
Start == <<[op |-> "smake", ref |-> I(2), charge |-> One], [op |-> "sadd", given |-> S2, sort |-> FALSE]>>
Init == b = [New(I(2), One) EXCEPT !.s = <<S2>>] /\ h = (IF Show THEN Start ELSE <<0, 0>>)
Next == /\ Len(h) < N + 2
        /\ \E o \in Ops : \E n \in {Eff(o)} :
             /\ (Show /\ o.op = "sfile" => \A k \in 3..Len(h) : h[k].op \notin {"sturn", "sadjust"}) \* numbers of which few digits are all
             /\ Assert(Law(o, n), <<"law", o, b, n>>) /\ b' = n /\ h' = Append(h, IF Show THEN o ELSE 0)
             /\ (IF Show /\ Len(h') = N + 2 THEN PrintT("SCRIPT" \o ToJson(h' \o <<[op |-> "smoments", u |-> 0, v |-> 3], [op |-> "smoments", u |-> 4, v |-> 5]>>)) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
