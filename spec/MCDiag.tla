------------------------------ MODULE MCDiag ------------------------------
(* every short history of attaching, switching and measuring with a BPM and
   a profile monitor; who gets a record is told from the history alone *)
EXTENDS Diag, Json, TLC
CONSTANTS N, Show
VARIABLES mon, g, h, hist
vars == <<mon, g, h, hist>>
Half == <<1, 2>>
U == <<<<3, 5>>, <<4, 5>>>>
M1 == [ty |-> "BPM", len |-> Zero, mp |-> Zero, ang |-> "0", u |-> U]
M2 == [ty |-> "RMS", len |-> One, mp |-> Half, ang |-> "u", u |-> U]
P == <<<<I(1), I(1), I(2), I(0)>>, <<I(3), I(-1), I(-2), I(1)>>>>
Bunch == [p |-> P, ct |-> I(7)]
Start == <<[op |-> "monitors", m |-> <<M1, M2>>, noise |-> FALSE], [op |-> "bunch", p |-> P, ct |-> I(7)],
           [op |-> "scale", m |-> 1, x |-> I(2), y |-> Half]>>
Ops == {[op |-> o, m |-> 1, b |-> b] : o \in {"attach", "detach"}, b \in {1, 2}}
  \cup {[op |-> o, m |-> 2, b |-> 1] : o \in {"attach", "detach"}}
  \cup {[op |-> "clearbuf", m |-> m] : m \in 1..2}
  \cup {[op |-> "default", ty |-> t, b |-> b] : t \in {"BPM", "RMS"}, b \in {0, 3}}
  \cup {[op |-> "active", m |-> 1, on |-> b] : b \in BOOLEAN} \cup {[op |-> "alloff", on |-> b] : b \in BOOLEAN}
  \cup {[op |-> "measure", m |-> m] : m \in 1..2} \cup {[op |-> "pass", ms |-> <<1, 2>>, before |-> I(1)]}
Set(m, w) == mon' = [mon EXCEPT ![m] = w] /\ g' = g
Eff(o) ==
  CASE o.op = "attach" -> Set(o.m, [mon[o.m] EXCEPT !.bufs = @ \cup {o.b}])
    [] o.op = "detach" -> Set(o.m, [mon[o.m] EXCEPT !.bufs = @ \ {o.b}])
    [] o.op = "clearbuf" -> Set(o.m, [mon[o.m] EXCEPT !.bufs = {}])
    [] o.op = "active" -> Set(o.m, [mon[o.m] EXCEPT !.on = o.on])
    [] o.op = "default" -> mon' = mon /\ g' = [g EXCEPT !.def[o.ty] = o.b]
    [] o.op = "alloff" -> mon' = mon /\ g' = [g EXCEPT !.off = o.on]
    [] OTHER -> UNCHANGED <<mon, g>>
(* the last word of the history on a matter *)


Last(Q(_), dflt) == LET W == {k \in 1..Len(hist) : Q(hist[k])} IN IF W = {} THEN dflt ELSE hist[CHOOSE k \in W : \A j \in W : j <= k]
Ty(m) == IF m = 1 THEN "BPM" ELSE "RMS"
Attached(m, b) == LET Q(o) == o.op \in {"attach", "detach", "clearbuf"} /\ o.m = m /\ (o.op # "clearbuf" => o.b = b) IN Last(Q, [op |-> "none"]).op = "attach"
IsDefault(m, b) == LET Q(o) == o.op = "default" /\ o.ty = Ty(m) IN Last(Q, [b |-> 0]).b = b
On(m) == LET Q(o) == o.op = "active" /\ o.m = m  R(o) == o.op = "alloff" IN Last(Q, [on |-> TRUE]).on /\ ~Last(R, [on |-> FALSE]).on
Gets(m, b) == On(m) /\ (Attached(m, b) \/ IsDefault(m, b))
Count(rs, b, m) == Cardinality({i \in 1..Len(rs) : rs[i][1] = b /\ rs[i][2] = m})
Law(rs, ms) ==
  /\ \A b \in 1..4, m \in 1..2 : Count(rs, b, m) = (IF Gets(m, b) /\ \E i \in 1..Len(ms) : ms[i] = m THEN 1 ELSE 0)
  /\ \A i, j \in 1..Len(rs) : rs[i][2] = rs[j][2] => rs[i][3] = rs[j][3]
  (* positions: mean (2, 0) there; after the drift of 1 (2, 1/2); half-way and on by mp in the second: s = 2 *)
  /\ \A i \in 1..Len(rs) :
       IF rs[i][2] = 1 THEN rs[i][3] = (IF Len(ms) = 1 THEN <<I(4), Zero, Zero, Zero, I(7)>> ELSE <<I(4), <<1, 4>>, Zero, Zero, I(8)>>)
       ELSE LET d == rs[i][3] IN
            (* two particles: the rms is half their distance, along the wire too *)
            IF Len(ms) = 1 THEN d[1] = I(2) /\ d[2] = Zero /\ d[4] = One /\ d[5] = I(4) /\ d[6] = Mul(<<11, 5>>, <<11, 5>>) /\ d[3] = <<6, 5>>
            ELSE d[1] = I(2) /\ d[2] = One /\ d[4] = One /\ d[5] = One /\ d[3] = <<2, 5>> /\ d[6] = <<1, 25>>
Init == /\ mon = <<[Monitor0("BPM", Zero, Zero, <<One, Zero>>, <<One, Zero, Zero>>) EXCEPT !.sx = I(2), !.sy = Half], Monitor0("RMS", One, Half, U, <<Mul(U[1], U[1]), Mul(U[2], U[2]), Mul(U[1], U[2])>>)>>
        /\ g = [def |-> [BPM |-> 0, RMS |-> 0], off |-> FALSE, noise |-> FALSE] /\ h = (IF Show THEN Start ELSE <<0, 0, 0>>) /\ hist = <<>>
Next == /\ Len(h) < N + 3
        /\ \E o \in Ops :
             /\ Eff(o)
             /\ (IF o.op \in {"measure", "pass"} THEN
                   LET ps == IF o.op = "measure" THEN Still(Bunch, o.m) ELSE Passage(mon, o.ms, Bunch, o.before, Bunch.ct, 1)
                       ms == IF o.op = "measure" THEN <<o.m>> ELSE o.ms IN
                   \E rs \in {Records(g, mon, ps)} : Assert(Law(rs, ms), <<"law", o, rs, hist>>) ELSE TRUE)
             /\ hist' = Append(hist, o) /\ h' = Append(h, IF Show THEN o ELSE 0)
             /\ (IF Show /\ Len(h') = N + 3 /\ o.op \in {"measure", "pass"} THEN PrintT("SCRIPT" \o ToJson(h')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
