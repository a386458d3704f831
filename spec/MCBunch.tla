------------------------------ MODULE MCBunch ------------------------------
(* every short history of two bunches; what no operation may change is told from the physics *)
EXTENDS Bunch, Json, TLC
CONSTANTS N, Show
VARIABLES bs, h
vars == <<bs, h>>
Half == <<1, 2>>
P(x, ct, dp, i) == [v |-> <<x, Zero, Zero, One, ct, dp>>, id |-> i]
A1 == P(I(2), One, One, 1)
A2 == P(Zero, I(-1), Zero, 2)
A3 == P(I(-2), One, <<-1, 2>>, 3)
Start == <<[op |-> "make", how |-> "array", P0 |-> I(2), Q |-> I(4), p |-> <<A1, A2>>], [op |-> "make", how |-> "empty", P0 |-> One, Q |-> I(-1), p |-> <<>>]>>
Ops == {[op |-> "add", b |-> b, p |-> A3, how |-> "add"] : b \in 1..2} \cup {[op |-> "erase", b |-> 1, i |-> i] : i \in 1..2}
  \cup {[op |-> "swap", b |-> 1, to |-> 2], [op |-> "assign", b |-> 1, to |-> 2], [op |-> "clear", b |-> 1], [op |-> "sort", b |-> 1], [op |-> "charge", b |-> 1, q |-> Half]}
  \cup {[op |-> "adjust", b |-> b, what |-> w, d |-> One] : b \in 1..2, w \in {"d", "mean", "time"}}
  \cup {[op |-> "centre", b |-> 1, given |-> g, p |-> A3] : g \in BOOLEAN}
  \cup {[op |-> "slices", b |-> 1, n |-> n, c |-> c, edge |-> FALSE, from |-> I(-1), to |-> One] : n \in {1, 2}, c \in {<<>>, <<I(-1), Zero, One>>}}
  \cup {[op |-> "histogram", b |-> 1, u |-> 0, du |-> One, norm |-> FALSE, cut |-> TRUE, from |-> I(-2), to |-> One]}
Can(o) == CASE o.op = "erase" -> o.i <= Len(bs[1].p) [] o.op = "centre" -> bs[1].p # <<>> [] o.op = "slices" -> bs[1].p # <<>> [] OTHER -> TRUE
RECURSIVE Ins(_, _), Sorted(_), RTot(_, _), RSq(_, _)
RTot(s, k) == IF k > Len(s) THEN Zero ELSE Add(s[k], RTot(s, k + 1))
RSq(ps, k) == IF k > Len(ps) THEN Zero ELSE Add(Mul(ps[k].v[1], ps[k].v[1]), RSq(ps, k + 1))
Ins(p, s) == IF s = <<>> THEN <<p>> ELSE IF Less(p.v[5], s[1].v[5]) THEN <<p>> \o s ELSE <<s[1]>> \o Ins(p, Tail(s))
Sorted(s) == IF s = <<>> THEN <<>> ELSE Ins(s[1], Sorted(Tail(s)))
Eff(o) ==
  CASE o.op = "add" -> [bs EXCEPT ![o.b].p = Append(@, o.p)]
    [] o.op = "erase" -> [bs EXCEPT ![1].p = Without(@, o.i)]
    [] o.op = "swap" -> [bs EXCEPT ![1].p = bs[2].p, ![2].p = bs[1].p]
    [] o.op = "assign" -> [bs EXCEPT ![2] = bs[1]]
    [] o.op = "clear" -> [bs EXCEPT ![1].p = <<>>]
    [] o.op = "sort" -> [bs EXCEPT ![1].p = Sorted(@)]
    [] o.op = "charge" -> [bs EXCEPT ![1].q = o.q, ![1].sg = Sign(o.q)]
    [] o.op = "adjust" -> [bs EXCEPT ![o.b] = IF o.what = "time" THEN AdjustT(@) ELSE AdjustP(@, IF o.what = "mean" THEN Mean(@.p, 6) ELSE o.d)]
    [] o.op = "centre" -> [bs EXCEPT ![1] = Centred(IF o.given THEN [@ EXCEPT !.p[1] = o.p] ELSE @)]
    [] o.op = "slices" -> [bs EXCEPT ![1].p = Sorted(Keep(@, o.from, o.to, 1))]
    [] OTHER -> [bs EXCEPT ![1].p = Inside(@, 1, o.from, o.to, 1)]
(* the momentum and time of arrival of each particle *)
Mom(b, k) == Mul(b.P0, Add(One, b.p[k].v[6]))
Arr(b, k) == Sub(b.T, b.p[k].v[5])
Same(x, y) == IsBad(x) \/ IsBad(y) \/ x = y
Law(o, n) ==
  /\ (o.op = "adjust" => LET a == bs[o.b]  b == n[o.b] IN
        /\ Len(a.p) = Len(b.p) /\ Charge(a) = Charge(b)
        /\ \A k \in 1..Len(a.p) : Same(Mom(a, k), Mom(b, k)) /\ Same(Arr(a, k), Arr(b, k)) /\ a.p[k].id = b.p[k].id /\ \A i \in 1..4 : a.p[k].v[i] = b.p[k].v[i]
        /\ (o.what = "mean" => Same(Mean(b.p, 6), Zero)) /\ (o.what = "time" => Same(Mean(b.p, 5), Zero))
        (* the spread is that of the momenta *)
        /\ (o.what # "time" => Same(Mul(Mul(b.P0, b.P0), Cov(b.p, 6, 6)), Mul(Mul(a.P0, a.P0), Cov(a.p, 6, 6)))))
  /\ (o.op = "centre" => LET b == n[1] IN
        /\ \A i \in 1..6 : Len(b.p) > 1 => Same(Mean(b.p, i), b.p[1].v[i])
        /\ (\A j, k \in 2..Len(b.p) : \A i \in 1..6 : Same(Sub(b.p[j].v[i], b.p[k].v[i]), Sub(bs[1].p[j].v[i], bs[1].p[k].v[i])))
        /\ (o.given => b.p[1] = o.p))
  /\ (o.op = "sort" => SameParticles(bs[1].p, n[1].p) /\ Ascending(n[1].p))
  /\ (o.op = "slices" => LET k == Keep(bs[1].p, o.from, o.to, 1)  cs == Counts(k, 5, o.from, o.to, o.n, 1)  e == Ends(cs, 1, 0)  hs == Scaled(cs, Norm(cs, Div(I(2), I(o.n))), 1) IN
        (* every particle within range is in one slice, the first and last bounds are those of the bunch, the area is one *)
        /\ Tot(cs, 1) = Len(k) /\ e[1] = 0 /\ e[Len(e)] = Len(k)
        /\ \A m \in 1..o.n : \A i \in e[m] + 1..e[m + 1] : In(n[1].p[i].v[5], Bound(o.from, o.to, o.n, m - 1), Bound(o.from, o.to, o.n, m))
        /\ (k # <<>> => RTot(hs, 1) = Div(I(o.n), I(2)))
        (* an odd filter has no slope on a symmetric distribution *)
        /\ (k # <<>> /\ o.c # <<>> /\ (\A i \in 1..o.n : cs[i] = cs[o.n + 1 - i]) => RTot(Slopes(hs, o.c, 1), 1) = Zero))
  /\ (o.op = "histogram" => LET k == n[1].p IN Tot(Counts(k, 1, o.from, o.to, 3, 1), 1) = Len(k))
  /\ (o.op = "swap" => Charge(n[1]) = Mul(bs[1].q, I(Len(bs[2].p))))
  /\ (\A b \in 1..2 : o.op \notin {"swap", "assign"} /\ o.b # b => n[b] = bs[b])
  /\ (\A b \in 1..2 : n[b].p # <<>> => Same(Add(Cov(n[b].p, 1, 1), Mul(Mean(n[b].p, 1), Mean(n[b].p, 1))), Div(RSq(n[b].p, 1), I(Len(n[b].p)))))
Init == bs = <<FromArray(I(2), I(4), <<A1, A2>>), New(One, I(-1), <<>>)>> /\ h = (IF Show THEN Start ELSE <<0, 0>>)
Next == /\ Len(h) < N + 2
        /\ \E o \in {x \in Ops : Can(x)} : \E n \in {Eff(o)} :
             /\ Assert(Law(o, n), <<"law", o, bs, n>>) /\ bs' = n /\ h' = Append(h, IF Show THEN o ELSE 0)
             /\ (IF Show /\ Len(h') = N + 2 THEN PrintT("SCRIPT" \o ToJson(h')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
