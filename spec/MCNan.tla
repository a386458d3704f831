----------------------------- MODULE MCNan -----------------------------
\* the non-finite check: every short history of damage and checks
EXTENDS Coll, Json, TLC
CONSTANTS Ids0, MaxOps, Show
VARIABLES cull, ids, ps, known, reps, h
vars == <<cull, ids, ps, known, reps, h>>
N == 3
Init == /\ cull \in BOOLEAN /\ ids \in [1..N -> Ids0] /\ ps = [i \in 1..N |-> <<i, ids[i], {}>>] /\ known = {} /\ reps = <<>> /\ h = <<>>
RECURSIVE Tags(_)
Tags(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)[1]>> \o Tags(Tail(q))
Laws == /\ \A i, j \in 1..Len(reps) : i # j => reps[i] # reps[j]
        /\ known = ToSet(reps)
        /\ \A i \in 1..(Len(ps) - 1) : ps[i][1] < ps[i + 1][1]
        /\ (\E i \in 1..Len(h) : h[i].op = "ncheck") => \A i \in 1..N : (\E j \in 1..Len(ps) : ps[j][1] = i) \/ (cull /\ ids[i] \in known)
        /\ (~cull) => Tags(ps) = [i \in 1..N |-> i]
Check == LET r == NewReps(ps, 0, known) IN
   /\ ps' = (IF cull THEN Good(ps) ELSE ps) /\ known' = known \cup {r[i][2] : i \in 1..Len(r)}
   /\ reps' = reps \o [i \in 1..Len(r) |-> r[i][2]] /\ h' = Append(h, [op |-> "ncheck", how |-> "direct", e |-> 0, q |-> <<>>, g |-> 0])
   /\ Assert(cull => \A i \in 1..Len(ps') : ~Bad(ps'[i]), "a bad particle is kept") /\ UNCHANGED <<cull, ids>>
Poison == \E t \in 1..N, c \in {0, 3} : ps' = Poisoned(ps, <<<<t, c>>>>) /\ h' = Append(h, [op |-> "npoison", tag |-> t, c |-> c, v |-> "nan"])
            /\ UNCHANGED <<cull, ids, known, reps>>
Next == /\ Assert(Laws, <<"laws of the check", vars>>) /\ Len(h) < MaxOps /\ (Check \/ Poison)
        /\ (IF Show /\ Len(h') = MaxOps THEN PrintT("SCRIPT" \o ToJson([cull |-> cull, ids |-> ids, ops |-> h'])) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=========================================================================
