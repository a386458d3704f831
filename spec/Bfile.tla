------------------------------- MODULE Bfile -------------------------------
(* files of bunches (B02): numbers are opaque, what is written is read.
   bunch: [P0, T, p |-> rows <<x, xp, y, yp, ct, dp, id>>]; text: lines [k |-> "skip" | "row" | "vec", T, P0, v, id] *)
EXTENDS Integers, Sequences
Skip == [k |-> "skip", T |-> "", P0 |-> "", v |-> <<>>, id |-> 0]
Row(T, P0, r) == [k |-> "row", T |-> T, P0 |-> P0, v |-> SubSeq(r, 1, 6), id |-> 0]
Vec(r) == [k |-> "vec", T |-> "", P0 |-> "", v |-> SubSeq(r, 1, 6), id |-> r[7]]
RECURSIVE RowsOf(_, _), VecsOf(_, _), Given(_, _), Particles(_, _, _), LastRow(_, _)
RowsOf(b, k) == IF k > Len(b.p) THEN <<>> ELSE <<Row(b.T, b.P0, b.p[k])>> \o RowsOf(b, k + 1)
VecsOf(b, k) == IF k > Len(b.p) THEN <<>> ELSE <<Vec(b.p[k])>> \o VecsOf(b, k + 1)
Written(b, how, i, pre) ==
  CASE how \in {"plain", "header"} -> <<Skip>> \o RowsOf(b, 1)
    [] how = "bare" -> RowsOf(b, 1)
    [] how = "index" -> <<Row(pre[1], pre[2], b.p[i])>> \* after what was written before it on the line
    [] OTHER -> VecsOf(b, 1)
(* rows given as text: <<T, P0, x, xp, y, yp, ct, dp>>, empty for lines that say nothing *)
Given(g, k) == IF k > Len(g) THEN <<>> ELSE <<IF g[k] = <<>> THEN Skip ELSE Row(g[k][1], g[k][2], SubSeq(g[k], 3, 8) \o <<0>>)>> \o Given(g, k + 1)
Particles(t, kind, k) == IF k > Len(t) THEN <<>> ELSE (IF t[k].k = kind THEN <<t[k].v \o <<t[k].id>>>> ELSE <<>>) \o Particles(t, kind, k + 1)
LastRow(t, k) == IF k = 0 THEN 0 ELSE IF t[k].k = "row" THEN k ELSE LastRow(t, k - 1)
(* what was read is behind what there was; the last reference counts *)
Read(b, t) == LET l == LastRow(t, Len(t)) IN [P0 |-> IF l = 0 THEN b.P0 ELSE t[l].P0, T |-> IF l = 0 THEN b.T ELSE t[l].T, p |-> b.p \o Particles(t, "row", 1)]
ReadVecs(P0, t) == [P0 |-> P0, T |-> "0x0p+0", p |-> Particles(t, "vec", 1)]
Empty == [P0 |-> "0x1.cp+2", T |-> "0x0p+0", p |-> <<>>]
=============================================================================
