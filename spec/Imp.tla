-------------------------------- MODULE Imp --------------------------------
(* Import of MAD tables: rows to components, their places, strengths, frames. *)
EXTENDS Integers, Sequences
(* a row: kw, pfx, nm, len and the integrated strengths; a configuration:     *)
(* types treated as drifts, types ignored at zero length, single cell RF,     *)
(* flat lattice, honour the structure of the table                            *)
Drifts0 == {"INSTRUMENT", "PLACEHOLDER", "VMONITOR", "HMONITOR", "KICKER", "TKICKER", "MATRIX"}
Zeros0 == {"RCOLLIMATOR"}
Name(r) == IF r.pfx = "" THEN r.nm ELSE r.pfx \o "_" \o r.nm
El(nm, ty, len, st) == [nm |-> nm, ty |-> ty, len |-> len, st |-> st]
Kind(r, c) ==
  LET k == r.kw IN
  IF k \in c.drifts \cup Drifts0 THEN "DRIFT"
  ELSE IF k \in {"LCAV", "RFCAVITY"} THEN (IF c.single THEN "RF1" ELSE "RFCAVITY")
  ELSE IF k \in {"RCOLLIMATOR", "ECOLLIMATOR", "COLLIMATOR"} THEN "COLLIMATOR"
  ELSE IF k \in {"SBEND", "RBEND"} THEN "BEND" ELSE k
Half(r) == 4 \div r.freq \* half a wavelength in units of 1/8
(* the components of a row; has: the columns of its table *)
Comps(r, c, has) ==
  LET k == Kind(r, c)  E(ty, st) == <<El(Name(r), ty, r.len, st)>>
      M(ty, n, re, im) == E(ty, <<re * c.P, im * c.P, IF re = 0 /\ im = 0 THEN 0 ELSE n>>) IN
  IF r.len = 0 /\ r.kw \in c.zeros \cup Zeros0 THEN <<>>
  ELSE CASE k = "DRIFT" -> IF r.len = 0 THEN <<>> ELSE E("Drift", <<>>)
    [] k = "BEND" -> LET an == IF "ANGLE" \in has \/ (r.kw = "RBEND" /\ r.K0L = 0) THEN r.ANGLE ELSE r.K0L IN
                     E("SectorBend", <<an, an * c.P, r.K1L * c.P, 0, r.E1, r.E2, r.TILT>>)
    [] k = "QUADRUPOLE" -> M("Quadrupole", 2, r.K1L, 0)
    [] k = "SKEWQUAD" -> M("SkewQuadrupole", 2, 0, r.K1L)
    [] k = "SEXTUPOLE" -> M("Sextupole", 4, r.K2L, 0)
    [] k = "SKEWSEXT" -> M("SkewSextupole", 4, 0, r.K2L)
    [] k = "OCTUPOLE" -> M("Octupole", 8, r.K3L, 0)
    [] k = "YCOR" -> M("YCor", 1, 0, 0)
    [] k = "XCOR" -> M("XCor", 1, 0, 0)
    [] k = "VKICKER" -> M("YCor", 1, 0, r.VKICK)
    [] k = "HKICKER" -> M("XCor", 1, 0 - r.HKICK, 0)
    [] k = "SOLENOID" -> E("Solenoid", <<>>)
    [] k = "RFCAVITY" -> E("SWRFStructure", <<r.volt, r.freq, r.lag>>)
    [] k = "RF1" -> <<El(Name(r), "SWRFStructure", Half(r), <<r.volt, r.freq, r.lag>>), El("Drift_" \o Name(r), "Drift", r.len - Half(r), <<>>)>>
    [] k = "CRABMARKER" -> E("CrabMarker", <<r.MUX, r.MUY>>)
    [] k = "CRABRF" -> E("TransverseRFStructure", <<>>)
    [] k = "COLLIMATOR" -> E("Collimator", <<>>)
    [] k = "HEL" -> E("HollowElectronLens", <<>>)
    [] k = "MONITOR" -> IF r.ws THEN E("RMSProfileMonitor", <<>>) ELSE E("BPM", <<>>)
    [] k = "MARKER" -> <<El(Name(r), "Marker", 0, <<>>)>>
    [] OTHER -> IF r.len = 0 THEN <<>> ELSE E("Drift", <<>>)
-----------------------------------------------------------------------------
(* the state of an import: elements so far, end of the last one, lines that   *)
(* are open (with the frame they made, or 0), frames with their elements      *)
Start == [els |-> <<>>, z |-> 0, open |-> <<>>, frames |-> <<>>]
RECURSIVE AddTo(_, _, _)
AddTo(fs, open, i) == IF open = <<>> THEN fs
  ELSE AddTo(IF open[1].f = 0 THEN fs ELSE [fs EXCEPT ![open[1].f] = [@ EXCEPT !.in = Append(@, i)]], Tail(open), i)
Place(s, x, pos) == LET e == [nm |-> x.nm, ty |-> x.ty, len |-> x.len, pos |-> pos, st |-> x.st] IN
  [s EXCEPT !.els = Append(@, e), !.z = @ + x.len, !.frames = AddTo(@, s.open, Len(s.els) + 1)]
RECURSIVE PlaceAll(_, _)
PlaceAll(s, xs) == IF xs = <<>> THEN s ELSE PlaceAll(Place(s, xs[1], s.z), Tail(xs))
FType(p) == CASE p = "S" -> "SimpleMount" [] p = "G" -> "GirderMount" [] p = "M" -> "MagnetMover" [] OTHER -> "SequenceFrame"
Row(s, r, c, has) ==
  IF r.kw = "LINE" THEN
    IF c.flat THEN s
    ELSE IF s.open # <<>> /\ s.open[Len(s.open)].nm = Name(r) THEN [s EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)]
    ELSE IF r.pfx # "" \/ c.honour THEN
      [s EXCEPT !.open = Append(@, [nm |-> Name(r), f |-> Len(s.frames) + 1]), !.frames = Append(@, [nm |-> r.nm, ty |-> FType(r.pfx), in |-> <<>>])]
    ELSE [s EXCEPT !.open = Append(@, [nm |-> Name(r), f |-> 0])]
  ELSE IF r.kw = "SROT" THEN Place(s, El(Name(r), "PatchFrame", 0, <<>>), 0)
  ELSE PlaceAll(s, Comps(r, c, has))
RECURSIVE Rows(_, _, _, _)
Rows(s, rs, c, has) == IF rs = <<>> THEN s ELSE Rows(Row(s, rs[1], c, has), Tail(rs), c, has)
Closed(s) == \A i \in 1..Len(s.open) : s.open[i].f = 0
FrameSet(fs) == {fs[i] : i \in 1..Len(fs)}
=============================================================================
