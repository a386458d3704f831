----------------------------- MODULE MCProc -----------------------------
\* every short history of adding, removing and initialising processes, with the components
\* tracked afterwards; the process table stays ordered and the steps cover the component
EXTENDS Track, Json
CONSTANTS MaxOps, Show
VARIABLES ps, hist, order
vars == <<gvars, ps, hist, order>>
P(i, pr, act, lim, g) == [id |-> i, pr |-> pr, act |-> act, lim |-> lim, g |-> g, thr |-> 0, ini |-> TRUE]
Pool == <<P(1, 1, "always", "none", 1), P(2, 0, "always", "grid", 2), P(3, 1, "quad", "max", 3), P(4, 2, "once", "ent", 1), P(5, 0, "long", "grid", 3), P(6, 2, "always", "max", 2)>>
Comps == <<[ty |-> "Quadrupole", len |-> 7], [ty |-> "Drift", len |-> 4], [ty |-> "Marker", len |-> 0]>>
Id_(p) == [id |-> p.id, pr |-> p.pr, act |-> p.act, lim |-> p.lim, g |-> p.g, thr |-> 0]
Init == ps = <<>> /\ hist = <<>> /\ order = <<>> /\ tr = <<>> /\ mis = <<>> /\ mov = <<>> /\ sup = <<>>
Without(q, i) == SelectSeq(q, LAMBDA x : x # i)
Add(i) == ~Has(ps, i) /\ ps' = Insert(ps, Pool[i]) /\ order' = Append(order, i) /\ hist' = Append(hist, [op |-> "padd", p |-> Id_(Pool[i])])
Rem(i) == ps' = Remove(ps, i) /\ order' = Without(order, i) /\ hist' = Append(hist, [op |-> "prem", id |-> i])
Known(i) == \E k \in 1..Len(hist) : hist[k].op = "padd" /\ hist[k].p.id = i
Pos_(i) == CHOOSE k \in 1..Len(order) : order[k] = i
\* laws
Stable == \A i, j \in 1..Len(ps) : (i < j /\ ps[i].pr = ps[j].pr) => Pos_(ps[i].id) < Pos_(ps[j].id)
SameSet == {ps[i].id : i \in 1..Len(ps)} = {order[k] : k \in 1..Len(order)}
RECURSIVE Cover(_, _, _, _)
\* the calls of one process start at 0, follow on one another and end at len
Cover(cs, id, s, len) == IF cs = <<>> THEN s = len
  ELSE IF Head(cs)[1] = "do" /\ Head(cs)[2] = id THEN Head(cs)[4] = s /\ Cover(Tail(cs), id, s + Head(cs)[5], len)
  ELSE Cover(Tail(cs), id, s, len)
Tracked(c) == TrackComp(ps, Comps[c] @@ [n |-> c], <<>>, FALSE)
Covers == \A c \in 1..Len(Comps) : \A i \in 1..Len(ps) :
   (ActiveIn(ps[i], Comps[c]) /\ ps[i].act # "once") => Cover(Tracked(c).calls, ps[i].id, 0, Comps[c].len)
Within == \A c \in 1..Len(Comps) : LET cs == Tracked(c).calls IN \A k \in 1..Len(cs) : cs[k][1] = "do" =>
   \A i \in 1..Len(ps) : (ActiveIn(ps[i], Comps[c]) /\ ps[i].act # "once" /\ ps[i].lim \in {"max", "grid"}) => cs[k][5] <= Limit(ps[i], cs[k][4], 0)
Good == Sorted(ps) /\ Stable /\ SameSet /\ Covers /\ Within
Next == /\ Assert(Good, <<"a law fails", ps, hist>>)
        /\ IF Len(hist) = MaxOps THEN UNCHANGED vars
           ELSE /\ \E i \in 1..Len(Pool) : Add(i) \/ (Known(i) /\ Rem(i))
                /\ UNCHANGED gvars
                /\ (IF Show /\ Len(hist') = MaxOps THEN PrintT("SCRIPT" \o ToJson([comps |-> Comps, ops |-> hist'])) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=========================================================================
