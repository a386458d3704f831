---------------------------- MODULE MCApConf ----------------------------
\* every small machine with every small aperture table
EXTENDS Aper, Json, TLC
CONSTANTS NEl, NRow, Show
VARIABLES els, rows, done
vars == <<els, rows, done>>
C(n) == <<n, n, n, n>>
Own == [k |-> "circ", p |-> <<2>>]
E(t, n, o) == [ty |-> t, len |-> n, ap |-> o]
ElKinds == {E("Drift", 4, None), E("Drift", 2, None), E("Quadrupole", 2, None), E("Marker", 0, None), E("Collimator", 2, Own)}
\* rows follow one another, at a distance g
RowKinds == {<<"circ", C(4)>>, <<"circ", C(6)>>, <<"ell", <<4, 6, 0, 0>>>>, <<"rectell", <<5, 3, 5, 4>>>>, <<"rect", <<5, 4, 0, 0>>>>, <<"blank", C(0)>>}
End == IF rows = <<>> THEN 0 ELSE rows[Len(rows)].s
Init == els \in UNION {[1..n -> ElKinds] : n \in 1..NEl} /\ rows = <<>> /\ done = FALSE
Grow == /\ ~done /\ Len(rows) < NRow /\ UNCHANGED <<els, done>>
        /\ \E r \in RowKinds : \E d \in {<<0, 0>>, <<0, 2>>, <<1, 1>>, <<2, 4>>} :
             rows' = rows \o <<[s |-> End + d[1] + d[2], len |-> d[2], k |-> r[1], p |-> r[2]]>>
ks == Knots(rows)
RECURSIVE Pos(_, _), NoBlank(_), Split(_), Where(_, _, _), Bare(_)
Pos(q, n) == IF n = 1 THEN 0 ELSE Pos(q, n - 1) + q[n - 1].len
NoBlank(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q).k = "blank" THEN <<>> ELSE <<Head(q)>>) \o NoBlank(Tail(q))
\* every drift of 4 as two of 2
Split(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q).len = 4 THEN <<[Head(q) EXCEPT !.len = 2], [Head(q) EXCEPT !.len = 2]>> ELSE <<Head(q)>>) \o Split(Tail(q))
Bare(q) == IF q = <<>> THEN <<>> ELSE <<[Head(q) EXCEPT !.ap = None]>> \o Bare(Tail(q))
\* the verdict in drifts at a place of the machine (away from the ends of elements)
Where(q, pos, s) == IF q = <<>> THEN None ELSE IF pos < s /\ s < pos + Head(q).len THEN [a |-> Head(q).ap, z |-> s - pos, d |-> Head(q).ty = "Drift"] ELSE Where(Tail(q), pos + Head(q).len, s)
Pts == {<<0, 0>>, <<3, 0>>, <<0, 3>>, <<4, 2>>, <<2, 4>>, <<4, 4>>, <<5, 0>>, <<0, 5>>, <<3, 3>>}
Inside(s) == ks # <<>> /\ ks[1].s <= s /\ s <= ks[Len(ks)].s
Ready(w) == Pos(w, Len(w) + 1)
Laws == \E w \in {Configure(els, 0, ks)} : \E w2 \in {Configure(Split(els), 0, ks)} :
  /\ \A i \in 1..Len(els) :
       /\ (els[i].ap # None => w[i].ap = els[i].ap) /\ (els[i].len = 0 => w[i].ap = None)
       /\ (els[i].ty = "Drift" => (w[i].ap = None <=> ks = <<>>))
       /\ (els[i].ty = "Quadrupole" /\ w[i].ap # None => \E r \in 1..Len(rows) : rows[r].k # "blank" /\ w[i].ap = Fixed(rows[r]))
       /\ (els[i].ty = "Quadrupole" /\ ks # <<>> => (w[i].ap = None <=> Pos(els, i) > ks[Len(ks)].s))
       \* in a drift the aperture at a point of the table is the one it says
       /\ (els[i].ty = "Drift" /\ ks # <<>> => \A z \in 0..els[i].len : \A q \in Pts : LET s == Pos(els, i) + z v == Verdict(w[i].ap, q[1], q[2], z)
             at == {n \in 1..Len(ks) : ks[n].s = s} IN
             /\ v # {} /\ v \subseteq {0, 1}
             /\ (at # {} /\ 0 < z /\ z < els[i].len => v = UNION {Of(Side(ks[n].k, ks[n].p, q[1], q[2]), FALSE) : n \in {m \in at : (\E o \in 1..Len(ks) : ks[o].s # s /\ (o = m - 1 \/ o = m + 1)) \/ m = 1 \/ m = Len(ks)}}))
  \* rows without an aperture do not count, nor does doing it again, nor does splitting a drift
  /\ w = Configure(els, 0, Knots(NoBlank(rows))) /\ w = Configure(w, 0, ks)
  /\ \A s \in 1..Pos(els, Len(els) + 1) : \E a \in {Where(w, 0, s)} : \E b \in {Where(w2, 0, s)} :
       IF a # None /\ b # None /\ Inside(s - 1) /\ Inside(s + 1) /\ Inside(s - a.z) /\ Inside(s - b.z)
       THEN a.d /\ b.d => \A q \in Pts : Verdict(a.a, q[1], q[2], a.z) = Verdict(b.a, q[1], q[2], b.z) ELSE TRUE
  \* a table that says the same everywhere
  /\ ((ks # <<>> /\ \A n \in 1..Len(ks) : SameAs(ks[n], ks[1])) =>
        \A i \in 1..Len(els) : els[i].ty = "Drift" => TypeOk(w[i].ap, TName(ks[1].k)) /\ ~Varies(w[i].ap.ks))
  /\ \A i \in 1..Len(els) : els[i].ty = "Drift" /\ ks # <<>> => (MustVary(w[i].ap.ks, els[i].len) => Varies(w[i].ap.ks))
Next == \/ Grow
        \/ /\ ~done /\ done' = TRUE /\ UNCHANGED <<els, rows>> /\ Assert(Laws, <<"a law fails", els, rows>>)
           /\ (IF Show /\ ks # <<>> THEN PrintT("SCRIPT" \o ToJson([els |-> els, rows |-> rows])) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=========================================================================
