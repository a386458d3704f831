------------------------------- MODULE MCImp -------------------------------
(* every short table made of these rows, in every way of reading it *)
EXTENDS Imp, TLC, Json
CONSTANTS N, Show
VARIABLES rs, cf, done
vars == <<rs, cf, done>>
Z == [kw |-> "", pfx |-> "", nm |-> "", len |-> 0, freq |-> 1, lag |-> 0, volt |-> 0, ws |-> FALSE, ANGLE |-> 0, K0L |-> 0, K1L |-> 0, K2L |-> 0, K3L |-> 0,
      E1 |-> 0, E2 |-> 0, TILT |-> 0, VKICK |-> 0, HKICK |-> 0, MUX |-> 0, MUY |-> 0]
R(k, n, l) == [Z EXCEPT !.kw = k, !.nm = n, !.len = l]
Line(p, n) == [R("LINE", n, 0) EXCEPT !.pfx = p]
Menu == {R("DRIFT", "d", 1), R("DRIFT", "z", 0), [R("QUADRUPOLE", "q", 2) EXCEPT !.K1L = 3], R("RCOLLIMATOR", "c", 0), R("COLLIMATOR", "k", 5), R("UNDULATOR", "u", 3),
         [R("RFCAVITY", "v", 8) EXCEPT !.volt = 2], R("SROT", "s", 1), [R("SBEND", "b", 4) EXCEPT !.ANGLE = 6, !.K0L = 5, !.E1 = 2],
         [R("MONITOR", "WS1", 7) EXCEPT !.ws = TRUE], Line("F", "a"), Line("", "a"), Line("G", "g")}
Cols == {"NAME", "KEYWORD", "L", "ANGLE"}
C(d, z, s, f, h) == [drifts |-> d, zeros |-> z, single |-> s, flat |-> f, honour |-> h, P |-> 1]
Cfgs == {C({}, {}, FALSE, FALSE, FALSE), C({}, {}, TRUE, FALSE, TRUE), C({"QUADRUPOLE", "RFCAVITY", "RCOLLIMATOR"}, {}, TRUE, FALSE, TRUE),
         C({"SBEND"}, {"COLLIMATOR", "DRIFT"}, FALSE, TRUE, TRUE)}
Imports(t, c) == Rows(Start, t, c, Cols)
RECURSIVE SumLen(_, _)
SumLen(es, n) == IF n = 0 THEN 0 ELSE SumLen(es, n - 1) + es[n].len
RECURSIVE TableLen(_)
TableLen(t) == IF t = <<>> THEN 0 ELSE (IF t[1].kw \in {"LINE", "SROT"} THEN 0 ELSE t[1].len) + TableLen(Tail(t))
Els(s) == {s.els[i] : i \in 1..Len(s.els)}
Ran(s) == {s[i] : i \in 1..Len(s)}
Thick(s) == {[nm |-> x.nm, pos |-> x.pos, len |-> x.len] : x \in {y \in Els(s) : y.len > 0}}
Laws == \E s \in {Imports(rs, cf)} :
  \* nothing that has a length is lost, whatever it is; each element begins where the one before it ends
  /\ s.z = TableLen(rs)
  /\ \A i \in 1..Len(s.els) : s.els[i].ty # "PatchFrame" => s.els[i].pos = SumLen(s.els, i - 1)
  \* a flat lattice has the same elements and no frames
  /\ \E f \in {Imports(rs, [cf EXCEPT !.flat = TRUE])} : f.els = s.els /\ f.frames = <<>> /\ f.z = s.z
  \* honouring the structure only adds frames
  /\ \E h \in {Imports(rs, [cf EXCEPT !.honour = TRUE])} : h.els = s.els /\ FrameSet(s.frames) \subseteq FrameSet(h.frames)
  \* frames hold whole runs of elements, nested or apart
  /\ \A i \in 1..Len(s.frames) : LET m == s.frames[i].in IN
       /\ \A k \in 1..Len(m) - 1 : m[k + 1] = m[k] + 1
       /\ \A j \in 1..Len(s.frames) : LET a == Ran(m)  b == Ran(s.frames[j].in) IN a \cap b = {} \/ a \subseteq b \/ b \subseteq a
  \* reading in two parts
  /\ \A k \in 0..Len(rs) : Rows(Imports(SubSeq(rs, 1, k), cf), SubSeq(rs, k + 1, Len(rs)), cf, Cols) = s
  \* a type treated as a drift moves nothing, and is the same whatever else is chosen for it
  /\ \A k \in {"QUADRUPOLE", "SBEND", "COLLIMATOR", "MONITOR"} : \E d \in {Imports(rs, [cf EXCEPT !.drifts = @ \cup {k}])} :
       /\ d.z = s.z /\ Thick(d) = Thick(s)
       /\ {x \in Els(d) : x.ty # "Drift"} \subseteq Els(s)
  \* ignoring a zero length type moves nothing
  /\ \E d \in {Imports(rs, [cf EXCEPT !.zeros = @ \cup {"DRIFT", "RCOLLIMATOR", "MONITOR"}])} : d.z = s.z /\ Thick(d) = Thick(s)
  \* a single cell is half a wavelength and the rest of the cavity is drift
  /\ \A i \in 1..Len(s.els) : s.els[i].ty = "SWRFStructure" /\ cf.single => s.els[i].len = 4 /\ s.els[i + 1].ty = "Drift" /\ s.els[i].len + s.els[i + 1].len = 8
Init == rs = <<>> /\ cf \in Cfgs /\ done = FALSE
Next == \/ ~done /\ Len(rs) < N /\ (\E y \in Menu : rs' = Append(rs, y)) /\ done' = FALSE /\ cf' = cf
        \/ /\ ~done /\ done' = TRUE /\ rs' = rs /\ cf' = cf /\ Assert(Laws, <<"a law fails", rs>>)
           /\ (IF Show /\ rs # <<>> /\ Closed(Imports(rs, cf)) THEN PrintT("SCRIPT" \o ToJson([rows |-> rs, cfg |-> cf])) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
