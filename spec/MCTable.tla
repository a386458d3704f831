------------------------------ MODULE MCTable ------------------------------
(* every short history of a table *)
EXTENDS Table, TLC, Json
CONSTANTS N, Show
VARIABLES t, h
vars == <<t, h>>
A == <<"a">>  B == <<"b">>
V(ty, n) == IF ty = "s" THEN Txt(IF n = 1 THEN <<"x">> ELSE <<" ", "y">>) ELSE IF ty = "i" THEN Num("i", n = 2, <<n>>, 2) ELSE Num("d", FALSE, <<n, 5>>, 0)
Ops == {[op |-> "addcol", n |-> n, t |-> ty] : n \in {A, B}, ty \in {"d", "i", "s"}} \cup {[op |-> "addcol", n |-> B, t |-> "x"]}
  \cup {[op |-> "hadd", n |-> A, t |-> ty] : ty \in {"d", "s", "x"}}
  \cup {[op |-> "addrow"]}
  \cup {[op |-> "addvals", v |-> <<V(ty, 1)>>] : ty \in {"d", "i"}} \cup {[op |-> "addvals", v |-> <<V(a, 1), V(b, 2)>>] : a \in {"i", "s"}, b \in {"d", "s"}}
  \cup {[op |-> "set", n |-> n, i |-> i, v |-> V(ty, 2), how |-> "table"] : n \in {A, B}, i \in 0..1, ty \in {"d", "i", "s"}}
  \cup {[op |-> "setstr", n |-> A, i |-> 0, x |-> s, how |-> "table"] : s \in {<<"1">>, <<"1", ".", "5">>, <<"x">>}}
  \cup {[op |-> "hset", n |-> A, v |-> V(ty, 1), how |-> "table"] : ty \in {"d", "s"}}
  \cup {[op |-> "hsetstr", n |-> A, x |-> <<"2">>]}
Res(o) == CASE o.op = "addcol" -> AddRes(t.cols, o.n, o.t) [] o.op = "hadd" -> AddRes(t.hdr, o.n, o.t) [] o.op = "addrow" -> {"ok"}
  [] o.op = "addvals" -> ValsRes(t, o.v) [] o.op = "set" -> CellRes(t, o.n, o.i, o.v.t) [] o.op = "setstr" -> TextRes(t, o.n, o.i, o.x)
  [] o.op = "hset" -> HRes(t, o.n, o.v.t) [] OTHER -> HTextRes(t, o.n, o.x)
Eff(o) == CASE o.op = "addcol" -> AddCol(t, o.n, o.t) [] o.op = "hadd" -> HAdd(t, o.n, o.t) [] o.op = "addrow" -> AddRow(t)
  [] o.op = "addvals" -> AddVals(t, o.v) [] o.op = "set" -> SetCell(t, o.n, o.i, o.v) [] o.op = "setstr" -> SetText(t, o.n, o.i, o.x)
  [] o.op = "hset" -> HSet(t, o.n, o.v) [] OTHER -> HSetText(t, o.n, o.x)
Init == t = Empty /\ h = <<>>
Typed == /\ \A i \in 1..Len(t.rows) : Len(t.rows[i]) = Len(t.cols) /\ \A j \in 1..Len(t.cols) : t.rows[i][j].t = t.cols[j].t
         /\ \A i \in 1..Len(t.hdr) : t.hdr[i].v.t = t.hdr[i].t
         /\ \A i, j \in 1..Len(t.cols) : t.cols[i].n = t.cols[j].n => i = j
Kept == Writable(t) => ReadTfs(PrintTfs(t)) = [ok |-> TRUE, t |-> Written(t)] /\ Written(Written(t)) = Written(t)
Texts == \A i \in 1..Len(t.rows) : \A j \in 1..Len(t.cols) : LET v == t.rows[i][j] IN FromText(v.t, ToText(v)) = [ok |-> TRUE, why |-> {}, v |-> v]
(* no cell changes but the one that is named *)
Frame(o, n) ==
  /\ Len(n.rows) = Len(t.rows) + (IF o.op \in {"addrow", "addvals"} /\ Res(o) = {"ok"} THEN 1 ELSE 0)
  /\ \A i \in 1..Len(t.rows) : \A j \in 1..Len(t.cols) :
       n.rows[i][j] # t.rows[i][j] => o.op \in {"set", "setstr"} /\ o.i = i - 1 /\ o.n = t.cols[j].n
  /\ SubSeq(n.cols, 1, Len(t.cols)) = t.cols
  /\ (n.hdr # t.hdr => o.op \in {"hadd", "hset", "hsetstr"})
  /\ (o.op = "set" /\ Res(o) = {"ok"} => Cell(n, o.n, o.i) = o.v)
Next == /\ Len(h) < N
        /\ \E o \in Ops : \E r \in {Res(o)} : \E n \in {IF r = {"ok"} THEN Eff(o) ELSE t} :
             /\ Assert(Frame(o, n), <<"frame", o, t, n>>)
             /\ t' = n /\ h' = Append(h, o)
             /\ (IF Show /\ Len(h') = N THEN PrintT("SCRIPT" \o ToJson(h')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
Laws == Typed /\ Kept /\ Texts
=============================================================================
