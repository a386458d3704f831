---------------------------- MODULE Patterns ----------------------------
(* Name patterns: '*' is any substring, '|' separates alternatives.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE GlobAt(_, _, _, _)
GlobAt(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF Ch(p, i) = "*" THEN GlobAt(p, i + 1, s, j) \/ (j <= Len(s) /\ GlobAt(p, i, s, j + 1))
  ELSE j <= Len(s) /\ Ch(p, i) = Ch(s, j) /\ GlobAt(p, i + 1, s, j + 1)
Glob(p, s) == GlobAt(p, 1, s, 1)
\* maximal runs of characters other than c
RECURSIVE SplitRuns(_, _, _, _)
SplitRuns(s, c, i, cur) ==
  IF i > Len(s) THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
  ELSE IF Ch(s, i) = c THEN (IF cur = "" THEN <<>> ELSE <<cur>>) \o SplitRuns(s, c, i + 1, "")
  ELSE SplitRuns(s, c, i + 1, cur \o Ch(s, i))
Alternatives(p) == SplitRuns(p, "|", 1, "")
Match(p, s) == LET alts == Alternatives(p) IN
   IF Len(alts) > 1 THEN \E k \in 1..Len(alts) : Glob(alts[k], s) ELSE Glob(p, s)
=============================================================================
