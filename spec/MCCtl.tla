------------------------------ MODULE MCCtl ------------------------------
(* every short history of settings of a quadrupole with two windings, a
   bend and a cavity, by all views *)
EXTENDS Ctl, Json
CONSTANTS N, Show
VARIABLES els, h
vars == <<els, h>>
B(ty, nm, bl, m) == [ty |-> ty, nm |-> nm, len |-> <<1, 2>>, mod |-> 1, bl |-> bl, s |-> Zero, c |-> NoC, p |-> <<>>, m |-> m]
Start == << [B("Quadrupole", "q", 0, 0) EXCEPT !.s = I(2), !.c = MagC("Quadrupole")],
            B("CorrectorWinding", "q", -1, 1),
            [B("SectorBend", "b", 1, 0) EXCEPT !.s = I(1), !.c = MagC("SectorBend")],
            [B("TWRFStructure", "t", 2, 0) EXCEPT !.p = [E |-> One, Phi |-> Zero, K |-> One]],
            [B("CorrectorWinding", "q", -1, 1) EXCEPT !.mod = 0] >>
V == {I(0), I(3), <<-1, 2>>}
(* the channels <<1, B1>>, <<2, X>>, <<2, Y>>, <<3, B0>>, <<3, B1>>, <<4, Lambda>> *)
Chn == <<<<1, "B1">>, <<2, "X">>, <<2, "Y">>, <<3, "B0">>, <<3, "B1">>, <<4, "Lambda">>>>
Ops == {[op |-> "write1", k |-> k, i |-> 1, v |-> v, inc |-> i, how |-> "op"] : k \in 1..5, v \in {I(3), <<-1, 2>>}, i \in BOOLEAN}
  \cup {[op |-> "write1", k |-> 6, i |-> 1, v |-> I(2), inc |-> i, how |-> "n"] : i \in BOOLEAN}
  \cup {[op |-> "scale", e |-> e, v |-> v, how |-> "strength"] : e \in {1, 3}, v \in {I(0), <<-1, 2>>}}
  \cup {[op |-> "comp", e |-> e, n |-> n, v |-> <<I(3), z>>, r |-> I(2), how |-> "long"] : e \in {1, 3}, n \in 0..1, z \in {I(0), I(1)}}
  \cup {[op |-> "coef", e |-> 1, n |-> n, v |-> <<Zero, I(1)>>, r |-> I(2)] : n \in 0..1}
  \cup {[op |-> "wind", e |-> 5, pl |-> pl, v |-> v] : pl \in {"X", "Y"}, v \in {I(0), I(1)}}
  \cup {[op |-> "set", e |-> 4, key |-> k, v |-> I(2)] : k \in {"Phi", "K"}}
Eff(w, o) ==
  CASE o.op = "write1" -> LET c == Chn[o.k] IN Put(w, c[1], c[2], IF o.inc THEN Add(Get(w, c[1], c[2]), o.v) ELSE o.v)
    [] o.op = "scale" -> [w EXCEPT ![o.e].s = o.v]
    [] o.op = "comp" -> [w EXCEPT ![o.e] = SetComp(w[o.e], o.n, o.v, o.r)]
    [] o.op = "coef" -> [w EXCEPT ![o.e] = SetCoef(w[o.e], o.n, o.v, o.r)]
    [] o.op = "wind" -> SetWind(w, o.e, o.pl, o.v)
    [] OTHER -> Put(w, o.e, o.key, o.v)
Sol(x) == ~IsBad(x)
Same(x, y) == Sol(x) /\ Sol(y) => x = y
SameC(u, v) == Same(u[1], v[1]) /\ Same(u[2], v[2])
(* what each operation must and must not do, said apart from how it is done *)
Law(o, w, n) ==
  LET at == CASE o.op = "write1" -> Chn[o.k][1] [] OTHER -> o.e
      mag == IF w[at].ty = "CorrectorWinding" THEN w[at].m ELSE at IN
  /\ \A i \in 1..Len(w) : i # mag => n[i] = w[i]
  /\ (o.op = "write1" /\ w[mag].s # Zero => LET c == Chn[o.k] IN Same(Get(n, c[1], c[2]), IF o.inc THEN Add(Get(w, c[1], c[2]), o.v) ELSE o.v))
  /\ (o.op = "write1" /\ w[mag].s = Zero /\ w[at].ty = "CorrectorWinding" => n = w)
  /\ (o.op = "comp" => SameC(CompOf(n[o.e], o.n, o.r), o.v) \/ w[o.e].s = Zero)
  /\ (o.op = "coef" => SameC(CoefOf(n[o.e], o.n, o.r), o.v))
  (* only the scale changes, or one component *)
  /\ (n[mag].s # w[mag].s => n[mag].c = w[mag].c)
  /\ Cardinality({k \in 1..Order : n[mag].c[k] # w[mag].c[k]}) <= 1
  (* a winding keeps the other plane *)
  /\ (w[at].ty = "CorrectorWinding" => LET x == IF o.op = "write1" THEN o.k = 2 ELSE o.pl = "Y" IN
        IF x THEN Same(WindBx(n, at), WindBx(w, at)) ELSE Same(WindBy(n, at), WindBy(w, at)))
  (* and every view agrees *)
  /\ WindBx(n, 2) = WindBx(n, 5) /\ WindBy(n, 2) = WindBy(n, 5)
  /\ Same(Div(WindBy(n, 2), n[1].len), Field([n[1] EXCEPT !.s = IF @ = Zero THEN @ ELSE @], CZero, -1)[1])
  /\ (n[4].p["K"] # Zero => Same(Mul(Get(n, 4, "Lambda"), Get(n, 4, "K")), One))
  /\ SameC(Field(n[1], <<I(1), I(0)>>, -1), CAdd(CompOf(n[1], 0, One), CompOf(n[1], 1, One)))
  /\ SameC(Field(n[1], <<I(0), I(1)>>, 0), CMul(<<Zero, One>>, CompOf(n[1], 1, One)))
Init == els = Start /\ h = <<>>
Next == /\ Len(h) < N
        /\ \E o \in Ops : \E n \in {Eff(els, o)} :
             /\ Assert(Law(o, els, n), <<"law", o, els, n>>)
             /\ els' = n /\ h' = Append(h, IF Show THEN o ELSE 0)
             /\ (IF Show /\ Len(h') = N THEN PrintT("SCRIPT" \o ToJson(h')) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
