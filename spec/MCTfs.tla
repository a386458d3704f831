------------------------------- MODULE MCTfs -------------------------------
(* every short file made of these lines *)
EXTENDS Table, TLC, Json
CONSTANTS N, Show
VARIABLES ls, done
vars == <<ls, done>>
L(s) == S1(s)
Menu == {L("@ h %d 1"), L("@ g %le 1.5"), L("@ h %05s \"\""), L("* a"), L("* a b"), L("* a a"), L("$ %d"), L("$ %s %le"), L("$ %d %f"),
         L(" "), L("1"), L("x 2.5"), L("\"\" -1e3"), L("2 y")}
Init == ls = <<>> /\ done = FALSE
RECURSIVE Insert(_, _, _)
Insert(s, i, y) == SubSeq(s, 1, i) \o <<y>> \o SubSeq(s, i + 1, Len(s))
Star(i) == i >= 1 /\ (LET w == Split(ls[i]) IN w # <<>> /\ w[1] = <<"*">>)
Laws == \E r \in {ReadTfs(ls)} :
  /\ (r.ok => /\ \A i \in 1..Len(r.t.rows) : Len(r.t.rows[i]) = Len(r.t.cols) /\ \A j \in 1..Len(r.t.cols) : r.t.rows[i][j].t = r.t.cols[j].t
              /\ \A i \in 1..Len(r.t.hdr) : r.t.hdr[i].v.t = r.t.hdr[i].t
              /\ Writable(r.t) /\ ReadTfs(PrintTfs(r.t)) = [ok |-> TRUE, t |-> Written(r.t)]
              /\ \A i, j \in 1..Len(r.t.cols) : r.t.cols[i].n = r.t.cols[j].n => i = j)
  \* a blank line anywhere but between the column lines says nothing
  /\ \A i \in 0..Len(ls) : ~Star(i) => ReadTfs(Insert(ls, i, <<"\t">>)) = r
  \* one more row is one more row
  /\ (r.ok => LET q == ReadTfs(Append(ls, L("7"))) IN
       IF Len(r.t.cols) = 1 THEN q.ok /\ SubSeq(q.t.rows, 1, Len(r.t.rows)) = r.t.rows /\ Len(q.t.rows) = Len(r.t.rows) + 1 ELSE ~q.ok)
  /\ (~r.ok /\ (\E i \in 1..Len(ls) : Star(i) /\ i < Len(ls)) => ~ReadTfs(Append(ls, L("7"))).ok)
Next == \/ ~done /\ Len(ls) < N /\ (\E y \in Menu : ls' = Append(ls, y)) /\ done' = FALSE
        \/ /\ ~done /\ done' = TRUE /\ ls' = ls /\ Assert(Laws, <<"a law fails", ls>>)
           /\ (IF Show THEN PrintT("SCRIPT" \o ToJson(ls)) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
