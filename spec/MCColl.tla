----------------------------- MODULE MCColl -----------------------------
\* every small line of collimated components, every process setting and every few particles: no particle is lost twice or
\* forgotten, survivors are inside at every point that is looked at, and no particle's fate depends on the others
EXTENDS Coll, Json, TLC
CONSTANTS NEl, NPs, Modes, Thrs, Show
VARIABLES el, pr, ps, done
vars == <<el, pr, ps, done>>
A(k, a, b, c, d) == [k |-> k, a |-> a, b |-> b, c |-> c, d |-> d]
Kinds == {<<"Drift", 4, A("rect", 3, 2, 0, 0)>>, <<"Marker", 0, A("circ", 2, 2, 0, 0)>>, <<"Drift", 2, A("none", 0, 0, 0, 0)>>,
          <<"Collimator", 4, A("jaw", 2, 3, 1, 0)>>, <<"Collimator", 4, A("taper", 4, 4, 2, 3)>>, <<"Collimator", 2, A("circ", 3, 3, 0, 0)>>}
Rays == {<<0, 0, 0, 0>>, <<3, 0, 0, 0>>, <<1, 1, 0, 0>>, <<-5, 1, 1, 0>>, <<0, 0, -1, 1>>}
Nm == <<"e1", "e2", "e3">>
Mk(k, i) == [ty |-> k[1], len |-> k[2], nm |-> Nm[i], ap |-> k[3]]
MkP(r, i) == <<i, r[1], r[2], r[3], r[4]>>
Init == /\ \E ks \in [1..NEl -> Kinds] : el = [i \in 1..NEl |-> Mk(ks[i], i)]
        /\ pr \in [mode : Modes, bin : {1, 3}, thr : Thrs, index : {TRUE}, how : {"no", "odd", "all"}, pats : {<<"e2">>}]
        /\ \E rs \in [1..NPs -> Rays] : ps = [i \in 1..NPs |-> MkP(rs[i], i)]
        /\ done = FALSE
Tn0 == [first |-> 0, turn |-> 0]
Run(p, q) == Pass(p, el, Order(NEl, 0), Tn0, Fresh(p, q)).st
LostIds(w) == [i \in 1..Len(w.reps) |-> w.reps[i][1]]
Conserve(w) == /\ Ids(w.ps) \cup ToSet(LostIds(w)) = Ids(ps) /\ Ids(w.ps) \cap ToSet(LostIds(w)) = {}
               /\ Len(w.ps) + Len(w.reps) = Len(ps) /\ w.nlost = Len(w.reps)
InOrder(w) == \A i \in 1..(Len(w.ps) - 1) : w.ps[i][1] < w.ps[i + 1][1]
Index(w) == w.ix = [i \in 1..Len(w.ps) |-> w.ps[i][1] - 1]
\* where a lost particle is reported it is outside, unless that is the end of its element
Places(w) == \A i \in 1..Len(w.reps) : LET r == w.reps[i]  e == el[r[2]] IN
   r[3] >= 0 /\ r[3] <= e.len /\ (r[3] = e.len \/ ~Inside(e.ap, e.len, r[4], r[6], r[3])) /\ r[8] = 1
\* the whole path of a free particle, and the points at which it was looked at
RECURSIVE Before2(_)
Before2(n) == IF n = 1 THEN 0 ELSE Before2(n - 1) + el[n - 1].len
Looked(n) == IF IsColl(pr, el[n]) THEN {} ELSE IF el[n].ap.k = "none" THEN {} ELSE ToSet(Points(pr.mode, el[n].len))
Orig(id) == ps[id]
SurvIn(w) == (~w.thrown) => \A i \in 1..Len(w.ps) : \A n \in 1..NEl : \A s \in Looked(n) :
   LET p == At(Orig(w.ps[i][1]), Before2(n) + s) IN Inside(el[n].ap, el[n].len, p[2], p[4], s)
LostOut(w) == \A i \in 1..Len(w.reps) : LET r == w.reps[i]  n == r[2] IN
   (~IsColl(pr, el[n])) => \E s \in Looked(n) : LET p == At(Orig(r[1]), Before2(n) + s) IN ~Inside(el[n].ap, el[n].len, p[2], p[4], s)
Straight(w) == (~w.thrown) => \A i \in 1..Len(w.ps) : w.ps[i] = At(Orig(w.ps[i][1]), Before2(NEl) + el[NEl].len)
Thresh(w) == w.thrown <=> (w.nlost > 0 /\ Exceeded(pr, w.nlost, Len(ps)))
\* alone, with no threshold, each particle does what it does in company
Alone(w) == (~w.thrown) => \A i \in 1..Len(ps) : LET v == Run([pr EXCEPT !.thr = 101], <<ps[i]>>) IN
   /\ Len(v.reps) = Cardinality({j \in 1..Len(w.reps) : w.reps[j][1] = i})
   /\ \A j \in 1..Len(v.reps) : v.reps[j] \in ToSet(w.reps)
   /\ \A j \in 1..Len(v.ps) : v.ps[j] \in ToSet(w.ps)
\* looking at more places loses no fewer
More(w) == LET v == Run([pr EXCEPT !.mode = 7, !.thr = 101], ps) IN
   (~w.thrown) => ToSet(LostIds(w)) \subseteq ToSet(LostIds(v))
Laws == \E w \in {Run(pr, ps)} : Conserve(w) /\ InOrder(w) /\ Index(w) /\ Places(w) /\ SurvIn(w) /\ LostOut(w) /\ Straight(w) /\ Thresh(w) /\ Alone(w) /\ More(w)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<el, pr, ps>> /\ Assert(Laws, <<"a law fails", el, pr, ps, Run(pr, ps)>>)
        /\ (IF Show THEN PrintT("SCRIPT" \o ToJson([el |-> el, pr |-> pr, ps |-> ps])) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=========================================================================
