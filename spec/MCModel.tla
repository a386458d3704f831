---------------------------- MODULE MCModel ----------------------------
\* bounded exploration of every construction history; prints each complete one as a script
EXTENDS Model, Json
CONSTANTS MaxOps, Emit
VARIABLES hist, opened \* calls made; number of components present when each open frame began
vars == <<mvars, hist, opened>>
Sized == <<mvars, opened, Len(hist)>>
H(r) == hist' = Append(hist, r)
Comp(t, n, len, gap) == AppendComp(t, n, len, gap) /\ H([op |-> "comp", type |-> t, name |-> n, len |-> len, gap |-> gap]) /\ UNCHANGED opened
TreeA == [name |-> "t", org |-> 1, kids |-> <<[type |-> "Sextupole", name |-> "s", len |-> 2],
          [name |-> "u", org |-> 0, kids |-> <<[type |-> "Drift", name |-> "d", len |-> 2]>>]>>]
Next ==
  /\ Len(hist) < MaxOps /\ phase = "open"
  /\ \/ Comp("Quadrupole", "q", 2, 0)
     \/ Comp("Marker", "m", 0, 1)
     \/ Comp("Patch", "p", 0, 0)
     \/ AppendDrift(3) /\ H([op |-> "drift", len |-> 3]) /\ UNCHANGED opened
     \/ \E o \in {0, 2} : NewFrame("f" \o ToString(Len(frs))) /\ H([op |-> "newframe", name |-> "f" \o ToString(Len(frs)), org |-> o])
                          /\ opened' = Append(opened, Len(lat))
     \/ EndFrame /\ opened[Len(opened)] < Len(lat) /\ H([op |-> "endframe"]) /\ opened' = SubSeq(opened, 1, Len(opened) - 1)
     \/ AppendTree(TreeA) /\ H([op |-> "appendframe", tree |-> TreeA]) /\ UNCHANGED opened
     \/ /\ Build /\ lat # <<>> /\ H([op |-> "build"]) /\ UNCHANGED opened
        /\ (Emit => PrintT("SCRIPT" \o ToJson(hist')))
MCInit == Init /\ hist = <<>> /\ opened = <<>>
Spec == MCInit /\ [][Next]_vars
QueriesTotal == phase = "built" =>
   /\ \A a, b \in 0..Len(lat) : RangeView(a, b).bad <=> (a >= Len(lat) \/ b >= Len(lat))
   /\ \A k \in 1..Len(frs) : FrameView(k).len = FrameView(k).end - FrameView(k).start
=============================================================================
