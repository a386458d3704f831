---------------------------- MODULE MCPatterns ----------------------------
\* exhaustive comparison of the matcher's definition with the set of words a pattern denotes,
\* and one conformance event per pattern
EXTENDS Patterns, Json, SequencesExt
CONSTANTS MaxP, MaxS
VARIABLE pat
Words(A, n) == LET RECURSIVE W(_) W(k) == IF k = 0 THEN {""} ELSE LET P == W(k - 1) IN P \cup {w \o c : w \in P, c \in A} IN W(n)
Strs == Words({"a", "b"}, MaxS)
\* the language of a wildcard pattern, cut off at words of Strs: built left to right by concatenation
RECURSIVE Lang(_, _, _)
Lang(p, i, L) == IF i > Len(p) THEN L
   ELSE IF Ch(p, i) = "*" THEN Lang(p, i + 1, {x \in Strs : \E w \in L : Len(w) <= Len(x) /\ SubSeq(x, 1, Len(w)) = w})
   ELSE Lang(p, i + 1, {w \o Ch(p, i) : w \in L} \cap Strs)
Stray(p) == (\E i \in 1..Len(p) : Ch(p, i) = "|") /\ Len(Alternatives(p)) < 2
Init == pat = ""
Next == /\ Len(pat) < MaxP
        /\ \E c \in {"a", "b", "*", "|"} : pat' = pat \o c
        /\ IF Stray(pat') THEN TRUE ELSE PrintT("SCRIPT" \o ToJson([op |-> "match", pat |-> pat', strs |-> SetToSeq(Strs)]))
Spec == Init /\ [][Next]_pat
Agrees == LET alts == Alternatives(pat) IN
   ~Stray(pat) => {s \in Strs : Match(pat, s)} =
      IF Len(alts) > 1 THEN UNION {Lang(alts[k], 1, {""}) : k \in 1..Len(alts)} ELSE Lang(pat, 1, {""})
=============================================================================
