----------------------------- MODULE MCTrack -----------------------------
\* every small lattice of field-free components with misalignments, tracked with processes that only look:
\* since nothing bends the beam, a ray must follow the straight line through space, whatever the alignment
EXTENDS Track, Json
CONSTANTS MaxKids, MaxOps, Show
VARIABLES hist, cfg
vars == <<gvars, hist, cfg>>
R(l, ty) == [k |-> "rect", len |-> l, ty |-> ty]
LeafKinds == {R(2, "Drift"), R(4, "Quadrupole"), R(0, "Marker"), R(2, "Monitor"),
              [k |-> "patch", ops |-> <<[t |-> "shift", v |-> <<1, 0, 1>>], [t |-> "z", k |-> 1]>>]}
Outer == {[k |-> "seq", org |-> 0], [k |-> "seq", org |-> 1], [k |-> "seq", org |-> 2], [k |-> "mover"]}
Up(f, p) == f @@ [parent |-> p]
Make(o, ls) ==
  LET m == Len(ls) IN
  <<[k |-> "seq", org |-> 0, parent |-> 0, kids |-> <<2, 3, m + 4>>], Up(R(2, "Drift"), 1), Up(o, 1) @@ [kids |-> [j \in 1..m |-> 3 + j]]>>
  \o [j \in 1..m |-> Up(ls[j], 3)] \o <<Up(R(4, "Quadrupole"), 1)>>
WF == LET as == Atoms(3) IN tr[as[1]].k # "patch" /\ tr[as[Len(as)]].k # "patch" /\ Len_(3)[1] % 4 = 0
      /\ \A i \in 1..Len(as) : tr[as[i]].k = "patch" => LenOf(SubSeq(as, 1, i)) # OrgDist(3)
P(i, pr, act, lim, g) == [id |-> i, pr |-> pr, act |-> act, lim |-> lim, g |-> g, thr |-> 0, ini |-> TRUE]
ProcSets == {<<>>, <<P(1, 0, "always", "max", 1)>>, <<P(1, 1, "always", "none", 1), P(2, 0, "quad", "grid", 3)>>, <<P(1, 2, "once", "ent", 1), P(2, 1, "long", "max", 2)>>}
Rays0 == <<<<3, 1, -2, 0>>, <<0, -1, 1, 1>>>>
Init == /\ \E o \in Outer, ls \in UNION {[1..i -> LeafKinds] : i \in 1..MaxKids} : tr = Make(o, ls)
        /\ mis = [m \in DOMAIN tr |-> Id] /\ mov = [m \in DOMAIN tr |-> [x |-> 0, y |-> 0, k |-> 0]]
        /\ sup = [m \in DOMAIN tr |-> <<<<0,0,0>>, <<0,0,0>>>>]
        /\ hist = <<>> /\ WF /\ cfg \in [p : ProcSets]
RECURSIVE AddAll(_, _)
AddAll(ps, q) == IF q = <<>> THEN ps ELSE AddAll(Insert(ps, Head(q)), Tail(q))
Ps == AddAll(<<Transport>>, cfg.p)
Sim(fr) == [fr |-> fr, flat |-> FALSE, inj |-> FALSE, handle |-> FALSE, out |-> TRUE, oall |-> TRUE, oini |-> TRUE, ofin |-> TRUE, pats |-> <<>>]
All == Atoms(1)
Whole == Pass(Sim(All), Ps, All, TRUE, Rays0, 0)
\* the straight line seen in the frame of the component
Seen(n) == RTs(Mul(ToEntrance(n), Phys(n, 1)), Rays0)
RECURSIVE Upto(_, _)
Upto(fs, n) == IF Head(fs) = n THEN <<>> ELSE <<Head(fs)>> \o Upto(Tail(fs), n)
AtEntry(n) == LET u == Upto(All, n) IN IF u = <<>> THEN Rays0 ELSE Pass(Sim(u), <<Transport>>, u, TRUE, Rays0, 0).rays
Straight(w) == /\ w.rays = RTs(Total(1), Rays0)
            /\ \A i \in 1..Len(All) : tr[All[i]].k # "patch" => RTs(Entry(All[i]), AtEntry(All[i])) = Seen(All[i])
\* two parts, one after the other, are the whole; the path is the sum of the lengths; watching changes nothing
Parts(w) == \A c \in 1..(Len(All) - 1) :
   LET f1 == SubSeq(All, 1, c)  f2 == SubSeq(All, c + 1, Len(All))
       r1 == Pass(Sim(f1), Ps, f1, TRUE, Rays0, 0)  r2 == Pass(Sim(f2), Ps, f2, TRUE, r1.rays, r1.t)
   IN r2.rays = w.rays /\ r2.t = w.t /\ r1.calls \o r2.calls = w.calls /\ r1.recs \o r2.recs = w.recs
Path(w) == w.t = PathLen(All)
Watch(w) == LET x == Pass(Sim(All), <<Transport>>, All, TRUE, Rays0, 0) IN x.rays = w.rays /\ x.t = w.t /\ x.recs = w.recs
Once(w) == \A i \in 1..Len(All) : tr[All[i]].k # "patch" => \A j \in 1..Len(Ps) : Ps[j].id # 0 =>
   Cardinality({k \in 1..Len(w.calls) : w.calls[k] = <<"set", Ps[j].id, All[i]>>}) = 1
Opss == {<<[t |-> "shift", v |-> <<1, 2, 3>>]>>, <<[t |-> "z", k |-> 1]>>, <<[t |-> "z", k |-> 2], [t |-> "shift", v |-> <<0, 1, -1>>]>>}
Targets == {m \in DOMAIN tr : m # 1 /\ tr[m].k # "patch"}
Good == \E w \in {Whole} : Straight(w) /\ Parts(w) /\ Path(w) /\ Watch(w) /\ Once(w)
Next == /\ Assert(Good, <<"a law fails", tr, hist, cfg>>)
        /\ IF Len(hist) = MaxOps THEN UNCHANGED vars
           ELSE /\ \E m \in Targets, o \in Opss : Apply(m, o) /\ hist' = Append(hist, [op |-> "apply", n |-> m, ops |-> o])
                /\ UNCHANGED cfg
                /\ (IF Show /\ Len(hist') = MaxOps THEN PrintT("SCRIPT" \o ToJson([nodes |-> tr, ops |-> hist', procs |-> cfg.p])) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=========================================================================
