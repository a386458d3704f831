------------------------------ MODULE Model ------------------------------
(* The accelerator model: construction of the flat lattice and frame tree, *)
(* queries on it, iteration, and insertion of elements into drifts.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Patterns
VARIABLES phase,  \* "open" while constructing, "built" afterwards
          lat,    \* sequence of [type, name, len, frame]: components in beamline order
          frs,    \* sequence of [name, org, parent]: sequence frames in order of creation
          stack   \* indices into frs of the frames being constructed, outermost first
mvars == <<phase, lat, frs, stack>>

Init == phase = "open" /\ lat = <<>> /\ frs = <<>> /\ stack = <<>>

Top(st) == IF st = <<>> THEN 0 ELSE st[Len(st)]
CompRec(t, n, l, f) == [type |-> t, name |-> n, len |-> l, frame |-> f]
FrameRec(n, p) == [name |-> n, parent |-> p]

AppendComp(t, n, l, gap) ==
  /\ phase = "open"
  /\ lat' = lat \o (IF gap # 0 THEN <<CompRec("Drift", "UNNAMED", gap, Top(stack))>> ELSE <<>>)
                \o <<CompRec(t, n, l, Top(stack))>>
  /\ UNCHANGED <<phase, frs, stack>>
AppendDrift(l) ==
  /\ phase = "open" /\ lat' = Append(lat, CompRec("Drift", "UNNAMED", l, Top(stack)))
  /\ UNCHANGED <<phase, frs, stack>>
NewFrame(n) ==
  /\ phase = "open" /\ frs' = Append(frs, FrameRec(n, Top(stack)))
  /\ stack' = Append(stack, Len(frs) + 1) /\ UNCHANGED <<phase, lat>>
EndFrame ==
  /\ phase = "open" /\ stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ UNCHANGED <<phase, lat, frs>>
\* a ready-made frame tree appended in one call
RECURSIVE AddTree(_, _), AddKids(_, _, _)
AddTree(acc, tr) == \* acc = [lat, frs, par]
   LET me == Len(acc.frs) + 1
       a1 == [acc EXCEPT !.frs = Append(@, FrameRec(tr.name, acc.par)), !.par = me]
   IN [AddKids(a1, tr.kids, 1) EXCEPT !.par = acc.par]
AddKids(acc, kids, i) ==
   IF i > Len(kids) THEN acc
   ELSE IF "kids" \in DOMAIN kids[i] THEN AddKids(AddTree(acc, kids[i]), kids, i + 1)
   ELSE AddKids([acc EXCEPT !.lat = Append(@, CompRec(kids[i].type, kids[i].name, kids[i].len, acc.par))], kids, i + 1)
AppendTree(tr) ==
  /\ phase = "open"
  /\ LET r == AddTree([lat |-> lat, frs |-> frs, par |-> Top(stack)], tr) IN lat' = r.lat /\ frs' = r.frs
  /\ UNCHANGED <<phase, stack>>
Build == phase = "open" /\ stack = <<>> /\ phase' = "built" /\ UNCHANGED <<lat, frs, stack>>

(* ---- derived state ---- *)
RECURSIVE SumLen(_, _)
SumLen(l, n) == IF n = 0 THEN 0 ELSE SumLen(l, n - 1) + l[n].len
StartOf(l, i) == SumLen(l, i - 1)
EndOf(l, i) == SumLen(l, i)
Total(l) == SumLen(l, Len(l))
IsPatch(c) == c.type = "Patch" \* a pure geometry patch: occupies a beamline slot, holds no component
QName(c) == IF IsPatch(c) THEN "PatchFrame." \o c.name ELSE c.type \o "." \o c.name
FName(c) == IF IsPatch(c) THEN c.name ELSE QName(c)
RECURSIVE Inside(_, _)
Inside(fi, anc) == fi = anc \/ (fi # 0 /\ Inside(frs[fi].parent, anc))
InFrame(k) == {i \in 1..Len(lat) : lat[i].frame # 0 /\ Inside(lat[i].frame, k)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
SeqOf(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE <<Min(T)>> \o F(T \ {Min(T)}) IN F(S)
\* 0-based indices of the components satisfying P, in beamline order
Sel(P(_)) == SeqOf({i - 1 : i \in {j \in 1..Len(lat) : P(lat[j])}})

(* what the finished model must look like *)
LatView(l) == [i \in 1..Len(l) |-> [type |-> l[i].type, name |-> l[i].name, fname |-> FName(l[i]),
    idx |-> i - 1, cidx |-> i - 1, len |-> l[i].len, flen |-> l[i].len, start |-> StartOf(l, i), end |-> EndOf(l, i)]]
FrameView(k) == LET S == InFrame(k) IN
    [name |-> frs[k].name, len |-> IF S = {} THEN 0 ELSE EndOf(lat, Max(S)) - StartOf(lat, Min(S)),
     start |-> StartOf(lat, Min(S)), end |-> EndOf(lat, Max(S)), idx |-> [j \in 1..Cardinality(S) |-> SeqOf(S)[j] - 1]]

(* ---- queries ---- *)
Visit(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
BeamView(a, b) == IF a <= b
   THEN [bad |-> FALSE, fi |-> a, li |-> b, first |-> a, last |-> b, rev |-> FALSE, visit |-> Visit(a, b), track |-> Visit(a, b)]
   ELSE [bad |-> FALSE, fi |-> a, li |-> b, first |-> a, last |-> b, rev |-> TRUE, visit |-> <<>>, track |-> <<>>]
BadView == [bad |-> TRUE, fi |-> 0, li |-> 0, first |-> 0, last |-> 0, rev |-> FALSE, visit |-> <<>>, track |-> <<>>]
RangeView(a, b) == IF a >= Len(lat) \/ b >= Len(lat) THEN BadView ELSE BeamView(a, b)
PatView(p1, p2, n1, n2) ==
   LET o1 == Sel(LAMBDA c : Match(p1, QName(c)))  o2 == Sel(LAMBDA c : Match(p2, QName(c)))
   IN IF Len(o1) < n1 \/ Len(o2) < n2 THEN BadView ELSE BeamView(o1[n1], o2[n2])
RingFwd(n, k) == [i \in 1..k |-> (n + i - 1) % Len(lat)]
RingBack(n, k) == [i \in 1..k |-> (n + k - i) % Len(lat)]
RingHome(n, k) == [i \in 1..k |-> i % Len(lat) = 0]
\* multiset of names as the set of <<name, multiplicity>>
Bag(names) == {<<names[i], Cardinality({j \in 1..Len(names) : names[j] = names[i]})>> : i \in 1..Len(names)}
Comps(l) == SelectSeq(l, LAMBDA c : ~IsPatch(c))
AllElements == [i \in 1..Len(lat) |-> QName(lat[i])] \o [i \in 1..Len(Comps(lat)) |-> "ComponentFrame." \o QName(Comps(lat)[i])]
   \o [k \in 1..Len(frs) |-> "SequenceFrame." \o frs[k].name]
RectMultipoles == {"Quadrupole", "Sextupole"}
Monitors == {"BPM"}
IsA(c, t) == \/ (t = "AcceleratorComponent" /\ ~IsPatch(c))
             \/ c.type = t
             \/ t = "RectMultipole" /\ c.type \in RectMultipoles
             \/ t = "Monitor" /\ c.type \in Monitors

(* ---- inserting a zero-length element into a drift (positions are relative to the start) ---- *)
Host(at) == LET S == {i \in 1..Len(lat) : EndOf(lat, i) > at} IN IF S = {} THEN 0 ELSE Min(S)
CanInstall(at) == at >= 0 /\ Host(at) # 0 /\ lat[Host(at)].type = "Drift"
InstallAt(t, n, at, n1, n2) ==
   LET h == Host(at) IN
   SubSeq(lat, 1, h - 1)
     \o <<CompRec("Drift", n1, at - StartOf(lat, h), 0), CompRec(t, n, 0, 0), CompRec("Drift", n2, EndOf(lat, h) - at, 0)>>
     \o SubSeq(lat, h + 1, Len(lat))
Install(t, n, at, n1, n2) ==
   /\ phase = "built" /\ CanInstall(at) /\ lat' = InstallAt(t, n, at, n1, n2) /\ UNCHANGED <<phase, frs, stack>>

(* ---- invariants of the design ---- *)
Contiguous == /\ (Len(lat) > 0 => StartOf(lat, 1) = 0)
              /\ \A i \in 1..(Len(lat) - 1) : EndOf(lat, i) = StartOf(lat, i + 1)
\* every frame holds a contiguous run of the beamline, frames nest
FramesContiguous == \A k \in 1..Len(frs) : LET S == InFrame(k) IN S # {} => S = Min(S)..Max(S)
FramesNest == \A j, k \in 1..Len(frs) :
    InFrame(j) \cap InFrame(k) = {} \/ InFrame(j) \subseteq InFrame(k) \/ InFrame(k) \subseteq InFrame(j)
FramesClosed == phase = "built" => stack = <<>>
RingVisitsOnce == Len(lat) > 0 => \A n \in 0..(Len(lat) - 1) :
    {RingFwd(n, Len(lat))[i] : i \in 1..Len(lat)} = 0..(Len(lat) - 1)
InstallPreservesTotal == [][phase = "built" => Total(lat') = Total(lat)]_mvars
=============================================================================
