------------------------------ MODULE MCBfile ------------------------------
(* every short history of writing and reading *)
EXTENDS Bfile, Json, TLC
CONSTANTS N, Show
VARIABLES b, t, h
vars == <<b, t, h>>
A == "0x1p+0"
B == "-0x1.8p-3"
Z == "0x0p+0"
P1 == <<A, B, Z, Z, A, B, 5>>
P2 == <<Z, Z, B, A, Z, A, 0>>
Bunches == {[P0 |-> p0, T |-> T, p |-> p] : p0 \in {"0x1.cp+2"}, T \in {Z, B}, p \in {<<>>, <<P1>>, <<P2, P1>>}}
One == <<1, 1>>
Ops == {[op |-> "fmake", P0 |-> x.P0, T |-> x.T, Q |-> One, p |-> x.p] : x \in Bunches}
  \cup {[op |-> "fwrite", how |-> w, fmt |-> f, i |-> 0, pre |-> <<>>] : w \in {"plain", "bare", "vectors"}, f \in {TRUE}}
  \cup {[op |-> "fnew"], [op |-> "ftext", s |-> "\n# 1 2\n", rows |-> <<<<>>, <<>>>>], [op |-> "ftext", s |-> "0 1 1 -0.1875 0 0 1 1\n", rows |-> <<<<Z, A, A, B, Z, Z, A, A>>>>]}
  \cup {[op |-> "fread", how |-> "input", append |-> a, Q |-> <<2, 1>>, P0 |-> ""] : a \in BOOLEAN}
  \cup {[op |-> "fread", how |-> "vectors", append |-> FALSE, Q |-> <<2, 1>>, P0 |-> A]}
Only(k) == \A i \in 1..Len(t) : t[i].k \in k
Can(o) == IF o.op = "fwrite" THEN (IF o.how = "vectors" THEN Only({"vec"}) ELSE Only({"skip", "row"})) ELSE IF o.op = "ftext" THEN Only({"skip", "row"})
          ELSE IF o.op = "fread" THEN (IF o.how = "vectors" THEN Only({"vec"}) ELSE Only({"skip", "row"})) ELSE TRUE
Eff(o) ==
  CASE o.op = "fmake" -> <<[P0 |-> o.P0, T |-> o.T, p |-> o.p], t>> [] o.op = "fnew" -> <<b, <<>>>>
    [] o.op = "fwrite" -> <<b, t \o Written(b, o.how, o.i, o.pre)>> [] o.op = "ftext" -> <<b, t \o Given(o.rows, 1)>>
    [] OTHER -> <<IF o.how = "input" THEN Read(IF o.append THEN b ELSE Empty, t) ELSE ReadVecs(o.P0, t), t>>
NoIds(p) == [k \in 1..Len(p) |-> SubSeq(p[k], 1, 6)]
Law(o, n) ==
  (* what is written now is read again, with its reference, behind what was written before *)
  /\ (o.op = "fwrite" /\ o.how # "vectors" => LET r == Read(Empty, n[2]) IN
        Len(r.p) >= Len(b.p) /\ NoIds(SubSeq(r.p, Len(r.p) - Len(b.p) + 1, Len(r.p))) = NoIds(b.p) /\ (b.p # <<>> => r.P0 = b.P0 /\ r.T = b.T))
  /\ (o.op = "fwrite" /\ o.how = "vectors" => LET r == ReadVecs(A, n[2]) IN SubSeq(r.p, Len(r.p) - Len(b.p) + 1, Len(r.p)) = b.p)
  /\ (o.op = "fread" => SubSeq(n[1].p, 1, IF o.append THEN Len(b.p) ELSE 0) = (IF o.append THEN b.p ELSE <<>>))
  (* writing what was read gives the same again *)
  /\ (o.op = "fread" /\ o.how = "input" => NoIds(Read(Empty, Written(n[1], "plain", 0, <<>>)).p) = NoIds(n[1].p))
Init == b = Empty /\ t = <<>> /\ h = <<>>
Next == /\ Len(h) < N
        /\ \E o \in {x \in Ops : Can(x)} : \E n \in {Eff(o)} :
             /\ (h = <<>> => o.op = "fmake") /\ Assert(Law(o, n), <<"law", o, b, t, n>>) /\ b' = n[1] /\ t' = n[2] /\ h' = Append(h, IF Show THEN o ELSE 0)
             /\ (IF Show /\ Len(h') = N /\ o.op = "fread" THEN PrintT("SCRIPT" \o ToJson(h')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
