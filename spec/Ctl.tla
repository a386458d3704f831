------------------------------- MODULE Ctl -------------------------------
(* The settings of a machine: magnets as multipole expansions, correctors
   wound on magnets, solenoids, movers, accelerating structures and the
   readings of position monitors; and the channels that view them.
   An element is [ty, nm, len, mod (1 while in the model), bl (place in the
   beamline, -1 if none), s, c, p, m].  s is the scale of a magnet's field, c its coefficients of
   order 0..7 (real part: normal, imaginary: skew); p holds plain settings;
   m is the magnet of a winding. *)
EXTENDS Rat, Patterns
Order == 8
Magnets == {"Quadrupole", "Sextupole", "Octupole", "Decapole", "SkewQuadrupole", "SkewSextupole", "XCor", "YCor", "SectorBend"}
RFs == {"TWRFStructure", "SWRFStructure", "TransverseRFStructure"}
Pole(ty) == CASE ty \in {"XCor", "YCor", "SectorBend"} -> 0 [] ty \in {"Quadrupole", "SkewQuadrupole"} -> 1 [] ty \in {"Sextupole", "SkewSextupole"} -> 2 [] ty = "Octupole" -> 3 [] OTHER -> 4
Skew(ty) == ty \in {"SkewQuadrupole", "SkewSextupole", "YCor"}
Keys(ty) == CASE ty = "Solenoid" -> {"Bz"} [] ty \in {"Quadrupole", "SkewQuadrupole"} -> {"B1"} [] ty \in {"Sextupole", "SkewSextupole"} -> {"B2"} [] ty = "Octupole" -> {"B3"}
  [] ty \in {"XCor", "YCor"} -> {"B0"} [] ty = "SectorBend" -> {"B0", "B1"} [] ty = "MagnetMover" -> {"X", "Y", "Roll"}
  [] ty \in {"TWRFStructure", "SWRFStructure"} -> {"E", "Phi", "Lambda", "K"} [] ty = "TransverseRFStructure" -> {"E", "Phi", "Lambda", "K", "ROLL"}
  [] ty = "CorrectorWinding" -> {"X", "Y"} [] ty = "BPM" -> {"X", "Y"} [] OTHER -> {}
Writable(ty) == ty # "BPM"
QName(e) == e.ty \o "." \o e.nm

(* ---- fields ---- *)
NoC == <<CZero, CZero, CZero, CZero, CZero, CZero, CZero, CZero>>
Unit(sk) == IF sk THEN <<Zero, One>> ELSE <<One, Zero>>
(* a magnet given by a gradient d^n B, or by the field b at a radius r *)
ByGradient(ty, g) == Div(g, I(Fact(Pole(ty))))
ByField(ty, b, r) == Div(b, Pow(r, Pole(ty)))
MagC(ty) == [NoC EXCEPT ![Pole(ty) + 1] = Unit(Skew(ty))]
CompOf(e, n, r) == Scale(e.s, Scale(Pow(r, n), e.c[n + 1]))
CoefOf(e, n, r) == Scale(Pow(r, n), e.c[n + 1])
SetComp(e, n, v, r) == [e EXCEPT !.c[n + 1] = CDivR(v, Mul(e.s, Pow(r, n)))]
SetCoef(e, n, v, r) == [e EXCEPT !.c[n + 1] = CDivR(v, Pow(r, n))]
SetScale(e, s) == [e EXCEPT !.s = s]
Kn(e, n, rig) == Scale(Mul(Div(e.s, rig), I(Fact(n))), e.c[n + 1])
RECURSIVE Series(_, _, _)
Series(c, z, n) == IF n = Order THEN CZero ELSE CAdd(c[n + 1], IF \A k \in n + 1..Order - 1 : c[k + 1] = CZero THEN CZero ELSE CMul(z, Series(c, z, n + 1)))
Terms(c, ex) == <<IF ex >= 0 THEN CZero ELSE c[1], IF ex >= 1 THEN CZero ELSE c[2], IF ex >= 2 THEN CZero ELSE c[3], IF ex >= 3 THEN CZero ELSE c[4],
                  IF ex >= 4 THEN CZero ELSE c[5], IF ex >= 5 THEN CZero ELSE c[6], IF ex >= 6 THEN CZero ELSE c[7], IF ex >= 7 THEN CZero ELSE c[8]>>
(* By + i Bx; the terms up to ex are left out *)
Field(e, z, ex) == IF e.s = Zero THEN CZero ELSE LET t == Terms(e.c, ex) IN Scale(e.s, Series(t, z, 0))
Force(b, v, q) == LET bx == Mul(q, b[2]) by == Mul(q, b[1]) IN <<Neg(Mul(by, v[3])), Mul(bx, v[3]), Sub(Mul(by, v[1]), Mul(bx, v[2]))>>

(* ---- windings: the integrated dipole of their magnet ---- *)
WindBy(els, w) == LET m == els[els[w].m] IN Mul(CompOf(m, 0, One)[1], m.len)
WindBx(els, w) == LET m == els[els[w].m] IN Mul(CompOf(m, 0, One)[2], m.len)
SetWind(els, w, pl, v) ==
  LET k == els[w].m  m == els[k]  d == CompOf(m, 0, One)  b == Div(v, m.len) IN
  IF m.s = Zero THEN els ELSE [els EXCEPT ![k] = SetComp(m, 0, IF pl = "Y" THEN <<b, d[2]>> ELSE <<d[1], b>>, One)]

(* ---- settings by key ---- *)
Roll(v) == IF IsBad(v) THEN Bad ELSE IF Less(I(3), v) \/ Less(v, I(-3)) THEN Bad ELSE v
Get(els, i, key) ==
  LET e == els[i] IN
  CASE e.ty = "SectorBend" /\ key = "B1" -> CompOf(e, 1, One)[1]
    [] e.ty \in Magnets -> e.s
    [] e.ty = "CorrectorWinding" -> IF key = "X" THEN WindBy(els, i) ELSE WindBx(els, i)
    [] e.ty \in RFs /\ key = "Lambda" -> Div(One, e.p["K"])
    [] e.ty = "BPM" -> Add(e.p[key], e.p[IF key = "X" THEN "offX" ELSE "offY"])
    [] OTHER -> e.p[key]
Put(els, i, key, v) ==
  LET e == els[i] IN
  CASE e.ty = "SectorBend" /\ key = "B1" -> [els EXCEPT ![i] = SetComp(e, 1, <<v, Zero>>, One)]
    [] e.ty \in Magnets -> [els EXCEPT ![i].s = v]
    [] e.ty = "CorrectorWinding" -> SetWind(els, i, IF key = "X" THEN "Y" ELSE "X", v)
    [] e.ty \in RFs /\ key = "Lambda" -> [els EXCEPT ![i].p["K"] = Div(One, v)]
    [] e.ty = "MagnetMover" /\ key = "Roll" -> [els EXCEPT ![i].p["Roll"] = Roll(v)]
    [] OTHER -> [els EXCEPT ![i].p[key] = v]
RECURSIVE PutAll(_, _, _, _)
PutAll(els, ch, vs, k) == IF k > Len(ch) THEN els ELSE PutAll(Put(els, ch[k][1], ch[k][2], vs[k]), ch, vs, k + 1)
RECURSIVE IncAll(_, _, _, _)
IncAll(els, ch, vs, k) == IF k > Len(ch) THEN els ELSE IncAll(Put(els, ch[k][1], ch[k][2], Add(Get(els, ch[k][1], ch[k][2]), vs[k])), ch, vs, k + 1)
RECURSIVE GetAll(_, _, _)
GetAll(els, ch, k) == IF k > Len(ch) THEN <<>> ELSE <<Get(els, ch[k][1], ch[k][2])>> \o GetAll(els, ch, k + 1)

(* ---- channels by pattern ---- *)
ChannelsOf(els, tp, id, key, rw, bl, a, b) ==
  {<<i, k>> \in (1..Len(els)) \X {"Bz", "B0", "B1", "B2", "B3", "X", "Y", "Roll", "ROLL", "E", "Phi", "Lambda", "K"} :
     /\ els[i].mod = 1 /\ k \in Keys(els[i].ty) /\ (rw => Writable(els[i].ty))
     /\ (bl => els[i].bl >= 0 /\ els[i].bl >= a /\ els[i].bl <= b)
     /\ Match(tp \o "." \o id, QName(els[i])) /\ Match(key, k)}
(* the monitors of the channels that are made keep readings from then on *)
Attach(els, chs) == [i \in 1..Len(els) |-> IF els[i].ty # "BPM" THEN els[i]
   ELSE [els[i] EXCEPT !.p = [@ EXCEPT !["onX"] = IF <<i, "X">> \in chs THEN One ELSE @, !["onY"] = IF <<i, "Y">> \in chs THEN One ELSE @]]]
Measure(els, i, x, y) == [els EXCEPT ![i].p = [@ EXCEPT !["X"] = IF els[i].p["onX"] = One THEN x ELSE @, !["Y"] = IF els[i].p["onY"] = One THEN y ELSE @]]
=============================================================================
