------------------------------ MODULE Geom ------------------------------
(* Reference geometry, misalignment and support motion of a tree of frames. *)
(* Lengths are in units of half a metre; bends are 180 degree arcs, so every *)
(* quarter turn is an exact integer transformation.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Patterns
VARIABLES tr,   \* [node id -> [k, parent, kids, ...]]; node 1 is the global frame
          mis,  \* [node id -> alignment error, a transformation]
          mov,  \* [node id -> [x, y, k]] settings of movers (k quarter turns of roll)
          sup   \* [node id -> <<offset 1, offset 2>>] offsets of the supports of mounts
gvars == <<tr, mis, mov, sup>>

(* ---- rigid transformations: a point p becomes r (p - x) ---- *)
Idm == <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>>>
Id == [x |-> <<0,0,0>>, r |-> Idm]
\* (tuples rather than functions, which TLC would evaluate lazily)
MV(m, v) == <<m[1][1]*v[1] + m[1][2]*v[2] + m[1][3]*v[3],
             m[2][1]*v[1] + m[2][2]*v[2] + m[2][3]*v[3],
             m[3][1]*v[1] + m[3][2]*v[2] + m[3][3]*v[3]>>
MM(m, n) == <<<<m[1][1]*n[1][1] + m[1][2]*n[2][1] + m[1][3]*n[3][1], m[1][1]*n[1][2] + m[1][2]*n[2][2] + m[1][3]*n[3][2], m[1][1]*n[1][3] + m[1][2]*n[2][3] + m[1][3]*n[3][3]>>,
             <<m[2][1]*n[1][1] + m[2][2]*n[2][1] + m[2][3]*n[3][1], m[2][1]*n[1][2] + m[2][2]*n[2][2] + m[2][3]*n[3][2], m[2][1]*n[1][3] + m[2][2]*n[2][3] + m[2][3]*n[3][3]>>,
             <<m[3][1]*n[1][1] + m[3][2]*n[2][1] + m[3][3]*n[3][1], m[3][1]*n[1][2] + m[3][2]*n[2][2] + m[3][3]*n[3][2], m[3][1]*n[1][3] + m[3][2]*n[2][3] + m[3][3]*n[3][3]>>>>
Tp(m) == <<<<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>, <<m[1][3], m[2][3], m[3][3]>>>>
VAdd(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
VNeg(u) == <<-u[1], -u[2], -u[3]>>
Mul(t, u) == [x |-> VAdd(u.x, MV(Tp(u.r), t.x)), r |-> MM(t.r, u.r)]   \* t after u
Inv(t) == [x |-> VNeg(MV(t.r, t.x)), r |-> Tp(t.r)]
Cos(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
RotM(axis, k) == LET c == Cos(k) s == Sin(k) IN
  CASE axis = "x" -> <<<<1,0,0>>, <<0,c,s>>, <<0,-s,c>>>>
    [] axis = "y" -> <<<<c,0,-s>>, <<0,1,0>>, <<s,0,c>>>>
    [] axis = "z" -> <<<<c,s,0>>, <<-s,c,0>>, <<0,0,1>>>>
Rot(axis, k) == [x |-> <<0,0,0>>, r |-> RotM(axis, k)]
Shift(v) == [x |-> v, r |-> Idm]
OpT(o) == IF o.t = "shift" THEN Shift(o.v) ELSE Rot(o.t, o.k)
RECURSIVE Compose(_, _)
Compose(ops, t) == IF ops = <<>> THEN t ELSE Compose(Tail(ops), Mul(OpT(Head(ops)), t))

(* ---- lengths: <<a, b>> stands for a + b * pi/2 ---- *)
LAdd(p, q) == <<p[1] + q[1], p[2] + q[2]>>
LSub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
VNeg2(p) == <<-p[1], -p[2]>>
Val(p) == 10000 * p[1] + 15708 * p[2]
Abs(i) == IF i < 0 THEN -i ELSE i
Sgn(i) == IF i < 0 THEN -1 ELSE 1
Quarter(rho) == [x |-> <<-rho, 0, Abs(rho)>>, r |-> RotM("y", -Sgn(rho))]
Container(n) == tr[n].k \in {"seq", "mover", "simple", "girder"}
RECURSIVE Atoms(_), AtomsOf(_)
AtomsOf(ks) == IF ks = <<>> THEN <<>> ELSE Atoms(Head(ks)) \o AtomsOf(Tail(ks))
Atoms(n) == IF Container(n) THEN AtomsOf(tr[n].kids) ELSE <<n>>
AtomLen(n) == CASE tr[n].k = "rect" -> <<tr[n].len, 0>> [] tr[n].k = "arc" -> <<0, 2 * Abs(tr[n].rho)>> [] OTHER -> <<0, 0>>
AtomTotal(n) == CASE tr[n].k = "rect" -> Shift(<<0, 0, tr[n].len>>)
                  [] tr[n].k = "arc" -> Mul(Quarter(tr[n].rho), Quarter(tr[n].rho))
                  [] tr[n].k = "patch" -> Compose(tr[n].ops, Id)
\* part of an atom, from its entrance; arcs are resolved to their centre
AtomPart(n, p) == CASE tr[n].k = "rect" -> Shift(<<0, 0, p[1]>>)
                    [] tr[n].k = "arc" -> IF p[2] = 0 THEN Id ELSE IF p[2] = Abs(tr[n].rho) THEN Quarter(tr[n].rho) ELSE AtomTotal(n)
                    [] tr[n].k = "patch" -> Id
RECURSIVE LenOf(_), TotalOf(_, _), Part(_, _, _)
LenOf(as) == IF as = <<>> THEN <<0, 0>> ELSE LAdd(AtomLen(Head(as)), LenOf(Tail(as)))
TotalOf(as, t) == IF as = <<>> THEN t ELSE TotalOf(Tail(as), Mul(AtomTotal(Head(as)), t))
Part(as, p, t) ==
  IF as = <<>> THEN t
  ELSE IF Val(p) <= Val(AtomLen(Head(as))) THEN Mul(AtomPart(Head(as), p), t)
  ELSE Part(Tail(as), LSub(p, AtomLen(Head(as))), Mul(AtomTotal(Head(as)), t))
Len_(n) == LenOf(Atoms(n))
Half(p) == <<p[1] \div 2, p[2] \div 2>>
Total(n) == TotalOf(Atoms(n), Id)                     \* entrance to exit
\* distance of the origin from the entrance
OrgMode(n) == IF tr[n].k = "seq" THEN tr[n].org ELSE 1
OrgDist(n) == CASE OrgMode(n) = 0 -> <<0, 0>> [] OrgMode(n) = 1 -> Half(Len_(n)) [] OTHER -> Len_(n)
From(n, p) == IF p = <<0, 0>> THEN Id ELSE IF p = Len_(n) THEN Total(n) ELSE Part(Atoms(n), p, Id)
ToOrg(n) == From(n, OrgDist(n))                        \* entrance to origin
\* from s0 to s, in the frame's own s coordinate (zero at its origin)
Geo(n, s0, s) == Mul(From(n, LAdd(s, OrgDist(n))), Inv(From(n, LAdd(s0, OrgDist(n)))))
ToEntrance(n) == Inv(ToOrg(n))                         \* origin to entrance plane
ToExit(n) == Mul(Total(n), Inv(ToOrg(n)))

(* ---- position in the enclosing frame ---- *)
RECURSIVE Before(_, _)
Before(ks, n) == IF Head(ks) = n THEN <<0, 0>> ELSE LAdd(Len_(Head(ks)), Before(Tail(ks), n))
Pos(n) == LSub(LAdd(Before(tr[tr[n].parent].kids, n), OrgDist(n)), OrgDist(tr[n].parent))
RECURSIVE PosIn(_, _)
PosIn(n, anc) == IF n = anc THEN <<0, 0>> ELSE LAdd(Pos(n), PosIn(tr[n].parent, anc))
RECURSIVE Ideal(_, _), Phys(_, _)
Ideal(n, anc) == IF n = anc THEN Id ELSE Mul(Geo(tr[n].parent, <<0, 0>>, Pos(n)), Ideal(tr[n].parent, anc))

(* ---- misalignment ---- *)
MoverT(m) == Mul(Rot("z", m.k), Shift(<<m.x, m.y, 0>>))
\* supports move in global axes; only common motion of both supports of a girder is represented exactly
SupportT(n) == IF tr[n].k \in {"simple", "girder"} THEN Shift(MV(Ideal(n, 1).r, sup[n][1])) ELSE Id
GirderT(n) == LET d == MV(Mul(ToEntrance(n), Ideal(n, 1)).r, sup[n][1]) IN Shift(d)
Local(n) == CASE tr[n].k = "mover" -> Mul(MoverT(mov[n]), mis[n])
              [] tr[n].k = "simple" -> Mul(mis[n], SupportT(n))
              [] tr[n].k = "girder" -> Mul(mis[n], GirderT(n))
              [] OTHER -> mis[n]
\* misalignments of the frames between n and anc, each about its own origin
Phys(n, anc) == IF n = anc \/ n = 1 THEN Id
                ELSE Mul(Local(n), Mul(Geo(tr[n].parent, <<0, 0>>, Pos(n)), Phys(tr[n].parent, anc)))
Frame(n, anc) == IF n = anc THEN Id ELSE Mul(Phys(n, anc), Inv(Geo(anc, <<0, 0>>, PosIn(n, anc))))

(* ---- changes of coordinates applied to the beam at component boundaries ---- *)
AtPlane(n, p) == IF p = "in" THEN ToEntrance(n) ELSE ToExit(n)
LocalPlane(n, p) == Mul(AtPlane(n, p), Mul(Local(n), Inv(AtPlane(n, p))))
IsEdge(n, p) == LET ks == tr[tr[n].parent].kids IN n = (IF p = "in" THEN ks[1] ELSE ks[Len(ks)])
RECURSIVE Plane(_, _)
Plane(n, p) == IF n = 1 THEN Id
  ELSE Mul(LocalPlane(n, p), IF IsEdge(n, p) THEN Plane(tr[n].parent, p) ELSE Id)
Entry(n) == Plane(n, "in")
Exit(n) == Inv(Plane(n, "out"))

(* ---- actions ---- *)
SetTree(t) == /\ tr' = t /\ mis' = [n \in DOMAIN t |-> Id] /\ mov' = [n \in DOMAIN t |-> [x |-> 0, y |-> 0, k |-> 0]]
              /\ sup' = [n \in DOMAIN t |-> <<<<0,0,0>>, <<0,0,0>>>>]
Apply(n, ops) == mis' = [mis EXCEPT ![n] = Compose(ops, @)] /\ UNCHANGED <<tr, mov, sup>>
SetLocal(n, ops) == mis' = [mis EXCEPT ![n] = Compose(ops, Id)] /\ UNCHANGED <<tr, mov, sup>>
Clear(n) == mis' = [mis EXCEPT ![n] = Id] /\ UNCHANGED <<tr, mov, sup>>
Move(n, m) == mov' = [mov EXCEPT ![n] = m] /\ UNCHANGED <<tr, mis, sup>>
Errors(S, ops, clear) == mis' = [n \in DOMAIN mis |-> IF n \in S THEN Compose(ops, IF clear THEN Id ELSE mis[n]) ELSE mis[n]]
                         /\ UNCHANGED <<tr, mov, sup>>
Offset(n, i, v, inc) == sup' = [sup EXCEPT ![n][i] = IF inc THEN VAdd(@, v) ELSE v] /\ UNCHANGED <<tr, mis, mov>>

(* ---- laws ---- *)
Leaves == {n \in DOMAIN tr : ~Container(n)}
Points(n) == {<<0, 0>>, OrgDist(n), Len_(n)} \cup {LenOf(SubSeq(Atoms(n), 1, i)) : i \in 1..Len(Atoms(n))}
NoPatch(n) == \A i \in 1..Len(Atoms(n)) : tr[Atoms(n)[i]].k # "patch"
Laws == \A n \in DOMAIN tr : (Container(n) /\ NoPatch(n) /\ tr[n].kids # <<>>) =>
   LET G(a, b) == Geo(n, LSub(a, OrgDist(n)), LSub(b, OrgDist(n))) IN
   /\ \A a, b, c \in Points(n) : Mul(G(b, c), G(a, b)) = G(a, c)
   /\ \A a, b \in Points(n) : Mul(G(b, a), G(a, b)) = Id
   /\ G(<<0, 0>>, Len_(n)) = Total(n) /\ Mul(ToExit(n), Inv(ToEntrance(n))) = Total(n)
\* the boundary changes of consecutive components add up to the misaligned frame of each component
RECURSIVE Walk(_, _)
Walk(as, cum) == IF as = <<>> THEN TRUE ELSE
  LET n == Head(as)  in == Mul(Entry(n), cum) IN
  /\ (tr[n].k # "patch" => in = Mul(ToEntrance(n), Phys(n, 1)))
  /\ Walk(Tail(as), Mul(Exit(n), Mul(AtomTotal(n), in)))
Telescopes == Walk(Atoms(1), Id)
Undone == (\A n \in DOMAIN tr : Local(n) = Id) => \A n \in DOMAIN tr : Phys(n, 1) = Ideal(n, 1)
=============================================================================
