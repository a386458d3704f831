----------------------------- MODULE MCGeom -----------------------------
\* every small nested lattice, and every short history of misalignments of its frames:
\*   global [ container [ leaves, optional inner container [ leaf ] ], leaf ]
EXTENDS Geom, Json
CONSTANTS MaxKids, MaxOps, Show
VARIABLES hist, n
vars == <<gvars, hist, n>>
LeafKinds == {[k |-> "rect", len |-> 2], [k |-> "rect", len |-> 4], [k |-> "arc", rho |-> 1], [k |-> "arc", rho |-> -2],
              [k |-> "patch", ops |-> <<[t |-> "shift", v |-> <<1, 0, 1>>], [t |-> "x", k |-> 1]>>]}
Outer == {[k |-> "seq", org |-> 0], [k |-> "seq", org |-> 1], [k |-> "seq", org |-> 2], [k |-> "mover"], [k |-> "simple"], [k |-> "girder"]}
Inner == {[k |-> "none"], [k |-> "seq", org |-> 1], [k |-> "simple"]}
Up(f, p) == f @@ [parent |-> p]
\* nodes: 1 global, 2 outer container, then its leaves, then the inner container and its leaf, then the last leaf
Make(o, ls, i, lf) ==
  LET m == Len(ls)
      inner == i.k # "none"
      leaves == [j \in 1..m |-> Up(ls[j], 2)]
      kids == [j \in 1..m |-> 2 + j] \o (IF inner THEN <<m + 3>> ELSE <<>>)
      base == <<[k |-> "seq", org |-> 0, parent |-> 0, kids |-> <<2, m + (IF inner THEN 5 ELSE 3)>>]>>
              \o <<Up(o, 1) @@ [kids |-> kids]>> \o leaves
              \o (IF inner THEN <<Up(i, 2) @@ [kids |-> <<m + 4>>], Up(lf, m + 3)>> ELSE <<>>)
  IN base \o <<[k |-> "rect", len |-> 2, parent |-> 1]>>
\* exactly representable: a centred origin falls on a boundary between atoms, the centre of an arc or a whole unit in a drift; patches lie strictly inside
RECURSIVE OnPoint(_, _)
OnPoint(as, p) ==
  IF as = <<>> THEN p = <<0, 0>>
  ELSE IF Val(p) <= Val(AtomLen(Head(as)))
    THEN CASE tr[Head(as)].k = "rect" -> p[2] = 0
           [] tr[Head(as)].k = "arc" -> p[1] = 0 /\ p[2] \in {0, Abs(tr[Head(as)].rho), 2 * Abs(tr[Head(as)].rho)}
           [] OTHER -> FALSE
    ELSE OnPoint(Tail(as), LSub(p, AtomLen(Head(as))))
PatchAt(m) == {LenOf(SubSeq(Atoms(m), 1, i)) : i \in {j \in 1..Len(Atoms(m)) : tr[Atoms(m)[j]].k = "patch"}}
WF == \A m \in DOMAIN tr : Container(m) =>
   LET as == Atoms(m) IN
   /\ tr[as[1]].k # "patch" /\ tr[as[Len(as)]].k # "patch"
   /\ \A c \in {tr[m].kids[i] : i \in 1..Len(tr[m].kids)} : LAdd(Before(tr[m].kids, c), OrgDist(c)) \notin PatchAt(m) \/ tr[c].k = "patch"
   /\ OrgMode(m) = 1 => (Len_(m)[1] % 2 = 0 /\ Len_(m)[2] % 2 = 0 /\ OnPoint(as, OrgDist(m)) /\ OrgDist(m) \notin PatchAt(m))
   /\ tr[m].k = "girder" => \A i \in 1..Len(as) : tr[as[i]].k = "rect"
Seqs == UNION {[1..i -> LeafKinds] : i \in 1..MaxKids}
Init == /\ \E o \in Outer, ls \in Seqs, i \in Inner, lf \in {f \in LeafKinds : f.k # "patch"} :
              (i.k = "none" => lf = [k |-> "rect", len |-> 2]) /\ tr = Make(o, ls, i, lf)
        /\ mis = [m \in DOMAIN tr |-> Id] /\ mov = [m \in DOMAIN tr |-> [x |-> 0, y |-> 0, k |-> 0]]
        /\ sup = [m \in DOMAIN tr |-> <<<<0,0,0>>, <<0,0,0>>>>]
        /\ hist = <<>> /\ n = 0 /\ WF
Opss == {<<[t |-> "shift", v |-> <<1, 2, 3>>]>>, <<[t |-> "z", k |-> 1]>>, <<[t |-> "y", k |-> 1], [t |-> "shift", v |-> <<0, 1, 0>>]>>}
H(r) == hist' = Append(hist, r) /\ n' = n + 1
Targets == {m \in DOMAIN tr : m # 1 /\ tr[m].k # "patch"}
Act ==
  \E m \in Targets :
     \/ \E o \in Opss : Apply(m, o) /\ H([op |-> "apply", n |-> m, ops |-> o])
     \/ mis[m] # Id /\ Clear(m) /\ H([op |-> "clear", n |-> m])
     \/ tr[m].k = "mover" /\ Move(m, [x |-> 1, y |-> -1, k |-> 1]) /\ H([op |-> "mover", n |-> m])
     \/ tr[m].k = "simple" /\ Offset(m, 1, <<1, 2, 0>>, TRUE) /\ H([op |-> "support", n |-> m])
     \/ /\ tr[m].k = "girder" /\ sup' = [sup EXCEPT ![m] = [i \in {1, 2} |-> VAdd(@[i], <<1, 0, -1>>)]]
        /\ UNCHANGED <<tr, mis, mov>> /\ H([op |-> "support", n |-> m])
\* undoing a misalignment by its inverse, about the same origin
Inverse == \A m \in DOMAIN tr : Mul(Inv(mis[m]), mis[m]) = Id
\* checked in every reachable state (as part of a step: TLC evaluates state invariants without caching
\* the arguments of operators, which makes these deep recursions exponential)
Good == /\ (n = 0 => Laws) /\ Telescopes /\ Undone /\ Inverse
Next == /\ Assert(Good, <<"a law fails", tr, hist>>)
        /\ IF n = MaxOps THEN UNCHANGED vars
           ELSE Act /\ (IF Show /\ n' = MaxOps THEN PrintT("SCRIPT" \o ToJson([nodes |-> tr, ops |-> hist'])) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=========================================================================
