------------------------------- MODULE Coll -------------------------------
(* Collimation and its loss reports, loss maps, and the non-finite check.    *)
(* A particle is <<id, x, x', y, y'>> in exact integer units (x in units W,  *)
(* lengths in units U, slopes in W/U); an element is [ty, len, nm, ap].      *)
EXTENDS Patterns, Integers, Sequences, FiniteSets
Abs(v) == IF v < 0 THEN -v ELSE v
At(p, s) == <<p[1], p[2] + s * p[3], p[3], p[4] + s * p[5], p[5]>>
RECURSIVE AllAt(_, _)
AllAt(ps, s) == IF ps = <<>> THEN <<>> ELSE <<At(Head(ps), s)>> \o AllAt(Tail(ps), s)
\* sizes are a + 1/64, so that no particle is ever on an edge
Inside(ap, len, x, y, z) ==
  CASE ap.k = "rect" -> Abs(x) <= ap.a /\ Abs(y) <= ap.b
    [] ap.k = "circ" -> 4 * (x * x + y * y) < (2 * ap.a + 1) * (2 * ap.a + 1)
    [] ap.k = "jaw"  -> Abs(x - ap.c) <= ap.a /\ Abs(y - ap.d) <= ap.b
    [] ap.k = "taper" -> /\ 64 * Abs(x) * len < (64 * ap.a + 1) * (len - z) + (64 * ap.c + 1) * z
                         /\ 64 * Abs(y) * len < (64 * ap.b + 1) * (len - z) + (64 * ap.d + 1) * z
    [] OTHER -> TRUE
In(e, p, z) == Inside(e.ap, e.len, p[2], p[4], z)
\* the place where a particle that entered the element as p is reported lost: the first end of a bin outside the aperture
RECURSIVE Where(_, _, _, _)
Where(e, p, b, z) == IF z >= e.len THEN e.len ELSE IF ~In(e, At(p, z), z) THEN z ELSE Where(e, p, b, z + b)
\* a report: <<id, element, position, x, x', y, y', turn>>
Rep(e, n, p, pos, turn) == <<p[1], n, pos, p[2], p[3], p[4], p[5], turn>>
RECURSIVE Keep(_, _, _), Gone(_, _, _), Reps(_, _, _, _, _), Pick(_, _, _, _)
\* particles by their entrance coordinates: kept / lost at point s
Keep(e, ps, s) == IF ps = <<>> THEN <<>> ELSE (IF In(e, At(Head(ps), s), s) THEN <<Head(ps)>> ELSE <<>>) \o Keep(e, Tail(ps), s)
Gone(e, ps, s) == IF ps = <<>> THEN <<>> ELSE (IF In(e, At(Head(ps), s), s) THEN <<>> ELSE <<Head(ps)>>) \o Gone(e, Tail(ps), s)
Reps(e, n, ps, b, turn) == IF ps = <<>> THEN <<>>
  ELSE LET z == Where(e, Head(ps), b, 0) IN <<Rep(e, n, At(Head(ps), z), z, turn)>> \o Reps(e, n, Tail(ps), b, turn)
\* the entries of a list that go with the particles kept
Pick(ix, e, ps, s) == IF ix = <<>> THEN <<>> ELSE (IF In(e, At(Head(ps), s), s) THEN <<Head(ix)>> ELSE <<>>) \o Pick(Tail(ix), e, Tail(ps), s)
\* outcome of scattering
Absorbed(how, p) == how = "all" \/ (how = "odd" /\ p[1] % 2 = 1)
RECURSIVE Keep2(_, _, _, _), Gone2(_, _, _, _), Pick2(_, _, _, _, _), Reps2(_, _, _, _, _)
Out2(e, p, z, how) == ~In(e, At(p, z), z) /\ Absorbed(how, p)
Keep2(e, ps, z, how) == IF ps = <<>> THEN <<>> ELSE (IF Out2(e, Head(ps), z, how) THEN <<>> ELSE <<Head(ps)>>) \o Keep2(e, Tail(ps), z, how)
Gone2(e, ps, z, how) == IF ps = <<>> THEN <<>> ELSE (IF Out2(e, Head(ps), z, how) THEN <<Head(ps)>> ELSE <<>>) \o Gone2(e, Tail(ps), z, how)
Pick2(ix, e, ps, z, how) == IF ix = <<>> THEN <<>> ELSE (IF Out2(e, Head(ps), z, how) THEN <<>> ELSE <<Head(ix)>>) \o Pick2(Tail(ix), e, Tail(ps), z, how)
Reps2(e, n, ps, z, turn) == IF ps = <<>> THEN <<>> ELSE <<Rep(e, n, At(Head(ps), z), z, turn)>> \o Reps2(e, n, Tail(ps), z, turn)

(* process pr: [mode, bin, thr, index, how] ; how = "no": no scattering in collimators *)
(* state st: [ps, ix, nlost, nstart, reps, thrown] *)
IsColl(pr, e) == pr.how # "no" /\ e.ty = "Collimator" /\ e.ap.k \in {"jaw", "taper"}
Points(mode, len) == (IF mode % 2 = 1 THEN <<0>> ELSE <<>>) \o (IF (mode \div 2) % 2 = 1 THEN <<len \div 2>> ELSE <<>>)
                     \o (IF mode \div 4 = 1 THEN <<len>> ELSE <<>>)
Exceeded(pr, nlost, nstart) == nlost * 100 >= pr.thr * nstart
\* ps holds entrance coordinates; a stop leaves the bunch where it is
RECURSIVE DoPoints(_, _, _, _, _, _), DoBins(_, _, _, _, _, _)
DoPoints(pr, e, n, pts, turn, st) ==
  IF pts = <<>> THEN [st EXCEPT !.ps = AllAt(st.ps, e.len)]
  ELSE LET s == Head(pts)  g == Gone(e, st.ps, s) IN
    IF g = <<>> THEN DoPoints(pr, e, n, Tail(pts), turn, st)
    ELSE LET k == Keep(e, st.ps, s)
             s2 == [st EXCEPT !.ps = k, !.ix = Pick(st.ix, e, st.ps, s), !.nlost = @ + Len(g), !.reps = @ \o Reps(e, n, g, pr.bin, turn)]
         IN IF Exceeded(pr, s2.nlost, st.nstart) THEN [s2 EXCEPT !.ps = AllAt(k, s), !.thrown = TRUE]
            ELSE DoPoints(pr, e, n, Tail(pts), turn, s2)
DoBins(pr, e, n, z, turn, st) ==
  LET z2 == IF z + pr.bin > e.len THEN e.len ELSE z + pr.bin
      g == Gone2(e, st.ps, z, pr.how)
      any == Gone(e, st.ps, z) # <<>>
      k == Keep2(e, st.ps, z, pr.how)
      s2 == [st EXCEPT !.ps = k, !.ix = Pick2(st.ix, e, st.ps, z, pr.how), !.nlost = @ + Len(g), !.reps = @ \o Reps2(e, n, g, z, turn)]
  IN IF any /\ Exceeded(pr, s2.nlost, st.nstart) THEN [s2 EXCEPT !.ps = AllAt(k, z2), !.thrown = TRUE]
     ELSE IF z2 >= e.len THEN [s2 EXCEPT !.ps = AllAt(k, e.len)]
     ELSE DoBins(pr, e, n, z2, turn, s2)
Element(pr, e, n, turn, st) ==
  IF e.ap.k = "none" THEN [st EXCEPT !.ps = AllAt(st.ps, e.len)]
  ELSE IF IsColl(pr, e) THEN DoBins(pr, e, n, 0, turn, st)
  ELSE DoPoints(pr, e, n, Points(pr.mode, e.len), turn, st)
\* the turn number counts visits of the first element ever visited: tn = [first, turn]
Turn(tn, n) == IF tn.first = 0 THEN [first |-> n, turn |-> 1] ELSE IF tn.first = n THEN [tn EXCEPT !.turn = @ + 1] ELSE tn
RECURSIVE Pass(_, _, _, _, _)
Pass(pr, el, order, tn, st) ==
  IF order = <<>> \/ st.thrown THEN [st |-> st, tn |-> tn]
  ELSE LET t2 == Turn(tn, Head(order)) IN Pass(pr, el, Tail(order), t2, Element(pr, el[Head(order)], Head(order), t2.turn, st))
RECURSIVE UpTo(_)
UpTo(n) == IF n = 0 THEN <<>> ELSE UpTo(n - 1) \o <<n - 1>>
Fresh(pr, ps) == [ps |-> ps, ix |-> IF pr.index THEN UpTo(Len(ps)) ELSE <<>>, nlost |-> 0, nstart |-> Len(ps), reps |-> <<>>, thrown |-> FALSE]
Again(st) == [st EXCEPT !.reps = <<>>, !.thrown = FALSE]
RECURSIVE Concat(_)
Order(n, off) == [i \in 1..n |-> ((i - 1 + off) % n) + 1]
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
ToSet(q) == {q[i] : i \in 1..Len(q)}
Ids(ps) == {ps[i][1] : i \in 1..Len(ps)}
\* the reports an output restricted to some names keeps
RECURSIVE Selected(_, _, _)
Selected(reps, el, pats) == IF reps = <<>> THEN <<>>
  ELSE (IF \E i \in 1..Len(pats) : Match(pats[i], el[Head(reps)[2]].nm) THEN <<Head(reps)>> ELSE <<>>) \o Selected(Tail(reps), el, pats)

(* ---- loss maps ---- *)
(* an element of a loss map: [nm, s, len, coll]; a loss <<element, position>>, lengths in cm, a bin is 10 cm *)
Class(e, warm) == IF e.coll THEN "collimator" ELSE IF \E i \in 1..Len(warm) : warm[i][1] <= e.s /\ e.s <= warm[i][2] THEN "warm" ELSE "cold"
Bin(p) == p \div 10
Key(mode, l) == CASE mode = "near" -> <<l[1], 0>> [] mode = "precise" -> <<l[1], l[2]>> [] OTHER -> <<l[1], Bin(l[2])>>
Before(el, k1, k2) == LET a == el[k1[1]]  b == el[k2[1]] IN
  a.s < b.s \/ (a.s = b.s /\ (a.len < b.len \/ (k1[1] = k2[1] /\ k1[2] <= k2[2]) \/ (a.len = b.len /\ k1[1] # k2[1])))
Count(losses, mode, k) == Cardinality({i \in 1..Len(losses) : Key(mode, losses[i]) = k})
\* entries <<element, key, lost, class>>
MapOk(el, mode, losses, got) ==
  /\ {got[i][1] : i \in 1..Len(got)} = {Key(mode, losses[i]) : i \in 1..Len(losses)}
  /\ Cardinality({got[i][1] : i \in 1..Len(got)}) = Len(got)
  /\ \A i \in 1..Len(got) : got[i][2] = Count(losses, mode, got[i][1])
  /\ \A i \in 1..(Len(got) - 1) : Before(el, got[i][1], got[i + 1][1])
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

(* ---- non-finite check: a particle is <<tag, id, set of bad coordinates>> ---- *)
Bad(p) == p[3] # {}
RECURSIVE Good(_), NewReps(_, _, _), Poisoned(_, _)
Good(ps) == IF ps = <<>> THEN <<>> ELSE (IF Bad(Head(ps)) THEN <<>> ELSE <<Head(ps)>>) \o Good(Tail(ps))
\* reports <<index, id>> : each id once
NewReps(ps, i, known) == IF ps = <<>> THEN <<>>
  ELSE IF Bad(Head(ps)) /\ Head(ps)[2] \notin known
       THEN <<<<i, Head(ps)[2]>>>> \o NewReps(Tail(ps), i + 1, known \cup {Head(ps)[2]})
       ELSE NewReps(Tail(ps), i + 1, known)
\* q: sequence of <<tag, coordinate>>
Hit(p, q) == <<p[1], p[2], p[3] \cup {q[i][2] : i \in {j \in 1..Len(q) : q[j][1] = p[1]}}>>
Poisoned(ps, q) == IF ps = <<>> THEN <<>> ELSE <<Hit(Head(ps), q)>> \o Poisoned(Tail(ps), q)
=============================================================================
