----------------------------- MODULE MCLoss -----------------------------
\* loss maps: every short history of losses and warm regions; the entries defined by MapOk are unique
EXTENDS Coll, Json, TLC
CONSTANTS MaxOps, Show
VARIABLES mode, h, losses, warm
vars == <<mode, h, losses, warm>>
El == << [nm |-> "a", s |-> 0, len |-> 0, coll |-> FALSE], [nm |-> "b", s |-> 0, len |-> 25, coll |-> TRUE],
         [nm |-> "c", s |-> 25, len |-> 25, coll |-> FALSE], [nm |-> "d", s |-> 50, len |-> 101, coll |-> TRUE] >>
Ls == {<<1, 0>>, <<2, 0>>, <<2, 25>>, <<3, 9>>, <<3, 11>>, <<4, 99>>, <<4, 101>>}
Ws == {<<0, 10>>, <<25, 25>>}
Init == mode \in {"near", "precise", "tencm"} /\ h = <<>> /\ losses = <<>> /\ warm = <<>>
\* the only table that is right: the keys in order of place
RECURSIVE Sorted(_)
Sorted(ks) == IF ks = {} THEN <<>> ELSE LET m == CHOOSE k \in ks : \A k2 \in ks : k = k2 \/ Before(El, k, k2) IN <<m>> \o Sorted(ks \ {m})
Table == LET q == Sorted({Key(mode, losses[i]) : i \in 1..Len(losses)}) IN [i \in 1..Len(q) |-> <<q[i], Count(losses, mode, q[i]), "x">>]
Laws == LET t == Table IN /\ MapOk(El, mode, losses, t) /\ Sum([i \in 1..Len(t) |-> t[i][2]]) = Len(losses)
   /\ \A i, j \in 1..Len(t) : i # j => /\ ~MapOk(El, mode, losses, [t EXCEPT ![i] = t[j], ![j] = t[i]])
                                        /\ ~MapOk(El, mode, losses, [t EXCEPT ![i][2] = @ + 1])
Next == /\ Assert(Laws, <<"loss map laws", mode, losses>>)
        /\ Len(h) < MaxOps
        /\ \/ \E l \in Ls : losses' = Append(losses, l) /\ h' = Append(h, [op |-> "dispose", e |-> l[1], p |-> l[2]]) /\ UNCHANGED <<mode, warm>>
           \/ \E w \in Ws : Len(warm) < 1 /\ warm' = Append(warm, w) /\ h' = Append(h, [op |-> "warm", r |-> w]) /\ UNCHANGED <<mode, losses>>
        /\ (IF Show /\ Len(h') = MaxOps THEN PrintT("SCRIPT" \o ToJson([mode |-> mode, el |-> El, ops |-> h'])) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=========================================================================
