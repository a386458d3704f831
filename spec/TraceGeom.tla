---------------------------- MODULE TraceGeom ----------------------------
EXTENDS Geom, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "expected", exp, "got", got>>) /\ FALSE
Q == UNCHANGED gvars
Near(what, exp, got) == IF Abs(exp - got) <= 100 THEN TRUE ELSE Chk(what, exp, got)
RECURSIVE SumOf(_)
SumOf(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumOf(Tail(q))
\* the supports of the mounts, as constructed, in the order the frames are traversed
RECURSIVE Supports(_), SupportsOf(_)
SupportsOf(ks) == IF ks = <<>> THEN <<>> ELSE Supports(Head(ks)) \o SupportsOf(Tail(ks))
At(n, d, t) == [s |-> Val(LAdd(PosIn(n, 1), d)), x |-> t.x[1], z |-> t.x[3]]
Supports(n) ==
  (CASE tr[n].k = "simple" -> <<At(n, <<0, 0>>, Ideal(n, 1))>>
     [] tr[n].k = "girder" -> <<At(n, VNeg2(OrgDist(n)), Mul(ToEntrance(n), Ideal(n, 1))), At(n, OrgDist(n), Mul(ToExit(n), Ideal(n, 1)))>>
     [] OTHER -> <<>>)
  \o (IF Container(n) THEN SupportsOf(tr[n].kids) ELSE <<>>)
RECURSIVE WalkIn(_)
WalkIn(as) == IF as = <<>> THEN <<>> ELSE
   (IF tr[Head(as)].k = "patch" THEN <<>> ELSE <<Mul(ToEntrance(Head(as)), Phys(Head(as), 1))>>) \o WalkIn(Tail(as))
RECURSIVE Moves(_, _)
\* along the girder only the first support fixes its position
Moves(ms, o) == IF ms = <<>> THEN <<>> ELSE
   LET n == [o EXCEPT ![Head(ms).i] = Head(ms).v] IN <<n>> \o Moves(Tail(ms), n)
Ends(n, o) == LET R == Ideal(n, 1).r  d1 == MV(R, o[1])  d2 == MV(R, o[2])
                  e2 == MV(Tp(R), <<d2[1], d2[2], d1[3]>>)
              IN <<o[1][1], o[1][2], o[1][3], e2[1], e2[2], e2[3]>>
RECURSIVE Rots(_, _)
Rots(s, m) == IF s = <<>> THEN <<>> ELSE LET n == MM(RotM(Head(s).t, Head(s).k), m) IN <<[m |-> n, i |-> Tp(n), u |-> Idm]>> \o Rots(Tail(s), n)
Names(e) == {n \in Leaves : LET as == Atoms(1) IN \E i \in 1..Len(as) : as[i] = n /\ e.first <= i - 1 /\ i - 1 <= e.last
     /\ Match("*." \o e.pat, IF tr[n].k = "patch" THEN "PatchFrame.n" \o ToString(n)
           ELSE IF tr[n].k = "rect" THEN "ComponentFrame.Drift.n" \o ToString(n) ELSE "ComponentFrame.SectorBend.n" \o ToString(n))}
ErrOps(e) == IF e.rot THEN <<[t |-> "x", k |-> e.v[1]], [t |-> "y", k |-> e.v[2]], [t |-> "z", k |-> e.v[3]]>>
             ELSE <<[t |-> "shift", v |-> e.v]>>
Step(e) ==
  CASE e.op = "reset" -> tr' = <<>> /\ mis' = <<>> /\ mov' = <<>> /\ sup' = <<>>
    [] e.op = "tree" -> SetTree(e.nodes)
    [] e.op = "geo" -> Q /\ Chk("geometry", Geo(e.n, e.a, e.b), e.T)
    [] e.op = "to" -> Q /\ Chk("geometry from origin", Geo(e.n, <<0, 0>>, e.b), e.T)
    [] e.op = "planes" -> Q /\ Chk("planes", <<ToEntrance(e.n), ToExit(e.n), Total(e.n)>>, <<e["in"], e.out, e.total>>)
                            /\ Near("length", Val(Len_(e.n)), e.len)
    [] e.op = "copy" -> Q /\ Chk("copy local", mis[e.n], e.T)
    [] e.op = "phys" -> Q /\ Chk("physical", Phys(e.n, e.anc), e.T)
    [] e.op = "frame" -> Q /\ Chk("frame", Frame(e.n, e.anc), e.T)
    [] e.op = "pos" -> Q /\ Near("position", Val(PosIn(e.n, e.anc)), e.v)
    [] e.op = "edges" -> Q /\ Chk("edges", <<Entry(e.n), Exit(e.n)>>, <<e["in"], e.out>>)
    [] e.op = "walk" -> Q /\ Chk("walk", WalkIn(Atoms(1)), e.cum)
                          /\ Chk("walk end", Total(1), e.end)
    [] e.op \in {"apply", "applyT"} -> Apply(e.n, e.ops)
    [] e.op = "setT" -> SetLocal(e.n, e.ops)
    [] e.op = "clear" -> Clear(e.n)
    [] e.op = "move" -> /\ Move(e.n, CASE e.w = "x" -> [mov[e.n] EXCEPT !.x = e.v] [] e.w = "y" -> [mov[e.n] EXCEPT !.y = e.v]
                                  [] e.w = "roll" -> [mov[e.n] EXCEPT !.k = e.v] [] OTHER -> [x |-> 0, y |-> 0, k |-> 0])
                        /\ Chk("mover", mov'[e.n], [x |-> e.x, y |-> e.y, k |-> e.k])
    [] e.op = "errors" -> Errors(Names(e), ErrOps(e), e.clear)
    [] e.op = "offset" -> Offset(e.n, e.i, e.v, e.inc) /\ Chk("supports", IF tr[e.n].k = "girder" THEN 2 ELSE 1, e.ns)
    [] e.op = "local" -> Q /\ Chk("local", Local(e.n), e.T)
    [] e.op = "all" -> Q /\ Chk("physical", [i \in 1..(Len(tr) - 1) |-> Phys(i + 1, 1)], e.phys)
    [] e.op = "offreset" -> sup' = [sup EXCEPT ![e.n] = <<<<0,0,0>>, <<0,0,0>>>>] /\ UNCHANGED <<tr, mis, mov>>
    [] e.op = "supports" -> Q /\ Chk("number of supports", Len(Supports(1)), e.n)
         /\ Chk("support locations", [i \in 1..Len(Supports(1)) |-> [x |-> Supports(1)[i].x, z |-> Supports(1)[i].z]],
                                     [i \in 1..Len(e.list) |-> [x |-> e.list[i].x, z |-> e.list[i].z]])
         /\ \A i \in 1..Len(e.list) : Near("support position", Supports(1)[i].s, e.list[i].s)
    [] e.op = "atl" -> /\ sup' = [n \in DOMAIN sup |-> <<<<0,0,0>>, <<0,0,0>>>>] /\ UNCHANGED <<tr, mis, mov>>
         /\ LET S == Supports(1)  off == \E i \in 1..Len(S) : S[i].s # 0  t == SumOf(e.dts) IN
            /\ Chk("time", <<t, t>>, <<e.time, e.time2>>)
            /\ Chk("ground motion", <<TRUE, TRUE, TRUE, TRUE>>, <<e.vertical, e.zero, e.same, e.again>>)
            /\ ((off \/ e.vib > 0) => Chk("motion", <<TRUE, TRUE>>, <<e.moved, e.differ>>))
            /\ (e.vib = 0 => Chk("supports at one place move together",
                                 [i \in 1..Len(S) |-> CHOOSE j \in 1..i : Abs(S[j].s - S[i].s) <= 100 /\ \A k \in 1..(j-1) : Abs(S[k].s - S[i].s) > 100], e.groups))
    [] e.op = "tilt" -> /\ sup' = [sup EXCEPT ![e.n] = <<<<0,0,0>>, <<0,0,0>>>>] /\ UNCHANGED <<tr, mis, mov>>
                        /\ LET ms == Moves(e.moves, <<<<0,0,0>>, <<0,0,0>>>>) IN Chk("tilt", [i \in 1..Len(ms) |-> Ends(e.n, ms[i])], e.res)
    [] e.op = "rots" -> Q /\ Chk("rotations", Rots(e.seq, Idm), e.res)
    [] OTHER -> FALSE
TraceInit == tr = <<>> /\ mis = <<>> /\ mov = <<>> /\ sup = <<>> /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<gvars, l>>
Done == PrintT(<<"TRACEDEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
