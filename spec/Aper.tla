------------------------------- MODULE Aper -------------------------------
(* Which points an aperture lets through: fixed shapes, collimator jaws,     *)
(* profiles that vary along the element, and the apertures that a table      *)
(* gives to the elements of a machine.  Sizes are integers (1/64 m across,   *)
(* 1/8 m along); the angles of an octagon are given by their tangents in     *)
(* quarters: its corners are (a, a c/4) and (b d/4, b).                      *)
EXTENDS Integers, Sequences, FiniteSets
Abs(v) == IF v < 0 THEN -v ELSE v
Min(a, b) == IF a < b THEN a ELSE b
Sgn(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
\* where a point is: 1 strictly inside, 0 on the edge, -1 outside
Circ(r, x, y) == Sgn(r * r - x * x - y * y)
Rect(a, b, x, y) == Min(Sgn(a - Abs(x)), Sgn(b - Abs(y)))
Ell(a, b, x, y) == IF Abs(x) > a \/ Abs(y) > b THEN -1 ELSE Sgn(b * b * (a * a - x * x) - y * y * a * a)
Diag(a, b, c, d, x, y) == Sgn((b * d - 4 * a) * (4 * Abs(y) - a * c) - (4 * b - a * c) * 4 * (Abs(x) - a))
\* sizes p (all scaled by D, as are x and y) ; t: the tangents, not scaled
Side(k, p, x, y) ==
  CASE k = "circ" -> Circ(p[1], x, y)
    [] k = "rect" -> Rect(p[1], p[2], x, y)
    [] k = "ell" -> Ell(p[1], p[2], x, y)
    [] k = "rectell" -> Min(Rect(p[1], p[2], x, y), Ell(p[3], p[4], x, y))
    [] k = "oct" -> Min(Rect(p[1], p[2], x, y), Diag(p[1], p[2], p[3], p[4], x, y))
\* can the edge be told exactly at this point?
Pow2(v) == v \in {1, 2, 4, 8, 16, 32, 64}
Exact(k, p, x, y) ==
  CASE k = "circ" -> TRUE
    [] k = "rect" -> TRUE
    [] k = "ell" -> (x = 0 \/ y = 0) /\ Pow2(p[2])
    [] k = "rectell" -> Rect(p[1], p[2], x, y) = 0 \/ ((x = 0 \/ y = 0) /\ Pow2(p[4]))
    [] k = "oct" -> Rect(p[1], p[2], x, y) = 0
Of(s, exact) == IF s = 1 THEN {1} ELSE IF s = -1 \/ exact THEN {0} ELSE {0, 1}
ShapeV(k, p, x, y) == Of(Side(k, p, x, y), Exact(k, p, x, y))

\* what a row of a table means
NZ(v) == v # 0
FromRow(k, r) ==
  CASE k = "circ" -> <<IF NZ(r[3]) THEN r[3] ELSE r[1]>>
    [] k = "rect" -> <<r[1], r[2]>>
    [] k = "ell" -> IF NZ(r[3]) \/ NZ(r[4]) THEN <<r[3], r[4]>> ELSE <<r[1], r[2]>>
    [] OTHER -> r
Kinds == {"circ", "rect", "ell", "rectell", "oct"}
TName(k) == CASE k = "circ" -> "CIRCLE" [] k = "rect" -> "RECTANGLE" [] k = "ell" -> "ELLIPSE" [] k = "rectell" -> "RECTELLIPSE" [] k = "oct" -> "OCTAGON"
            [] OTHER -> "none"

\* collimators: c = [v, w, h, wx, hx, ox, oy, oxe, oye, len, t = <<cos, sin, n>>, side]; w, h, wx, hx are full sizes
CollSide(c, x, y, z) ==
  LET L == c.len
      X == IF c.v = "plain" THEN x * L - (c.ox * L + (c.oxe - c.ox) * z) ELSE (x - c.ox) * L
      Y == IF c.v = "plain" THEN y * L - (c.oy * L + (c.oye - c.oy) * z) ELSE (y - c.oy) * L
      W == IF c.v = "plain" THEN c.w * L + (c.wx - c.w) * z ELSE c.w * L
      H == IF c.v = "plain" THEN c.h * L + (c.hx - c.h) * z ELSE c.h * L
      X1 == X * c.t[1] + Y * c.t[2]
      Y1 == Y * c.t[1] - X * c.t[2]
      sx == IF c.v = "one" THEN (IF c.side THEN W * c.t[3] - 2 * X1 ELSE W * c.t[3] + 2 * X1) ELSE W * c.t[3] - 2 * Abs(X1)
  IN Min(Sgn(sx), Sgn(H * c.t[3] - 2 * Abs(Y1)))
Straight(c) == c.t[2] = 0 /\ (c.v # "plain" \/ (c.w = c.wx /\ c.h = c.hx /\ c.ox = c.oxe /\ c.oy = c.oye))
CollV(c, x, y, z) == Of(CollSide(c, x, y, z), Straight(c))

\* profiles: a sequence of [s, k, p], p the numbers of the row
Lin(a, b, i, n, D) == a * (D - n) + b * n
\* as a rectangle within an ellipse
AsRE(k, p) == CASE k = "circ" -> <<p[1], p[1], p[1], p[1]>> [] k = "ell" -> <<p[1], p[2], p[1], p[2]>> [] k = "rectell" -> p
Smooth == {"circ", "ell", "rectell"}
LinP(k, p, q, n, D) ==
  CASE k = "circ" -> <<Lin(p[1], q[1], 1, n, D)>>
    [] k \in {"rect", "ell"} -> <<Lin(p[1], q[1], 1, n, D), Lin(p[2], q[2], 2, n, D)>>
    [] k = "rectell" -> <<Lin(p[1], q[1], 1, n, D), Lin(p[2], q[2], 2, n, D), Lin(p[3], q[3], 3, n, D), Lin(p[4], q[4], 4, n, D)>>
    [] k = "oct" -> <<Lin(p[1], q[1], 1, n, D), Lin(p[2], q[2], 2, n, D), p[3], p[4]>>
Known(a, b) == \/ a.k = b.k /\ (a.k = "oct" => a.p[3] = b.p[3] /\ a.p[4] = b.p[4]) /\ (a.k = "rect" => a.p[1] = b.p[1] /\ a.p[2] = b.p[2])
               \/ a.k \in Smooth /\ b.k \in Smooth
SegV(a, b, x, y, z) ==
  LET D == b.s - a.s n == z - a.s IN
  IF z = a.s THEN Of(Side(a.k, a.p, x, y), FALSE)
  ELSE IF z = b.s THEN Of(Side(b.k, b.p, x, y), FALSE)
  ELSE IF ~Known(a, b) THEN {0, 1}
  ELSE IF a.k = b.k THEN Of(Side(a.k, LinP(a.k, a.p, b.p, n, D), x * D, y * D), FALSE)
  ELSE Of(Side("rectell", LinP("rectell", AsRE(a.k, a.p), AsRE(b.k, b.p), n, D), x * D, y * D), FALSE)
\* at a step of the profile either side may be meant
ProfV(ks, x, y, zz) == LET z == IF zz < 0 THEN 0 ELSE zz IN
  UNION {IF ks[i].s < ks[i + 1].s /\ ks[i].s <= z /\ z <= ks[i + 1].s THEN SegV(ks[i], ks[i + 1], x, y, z) ELSE {} : i \in 1..(Len(ks) - 1)}

\* an aperture: [k = "none"] or a shape [k, p] or [k = "coll", ..] or [k = "prof", ks]; the verdict 2 means there is none
None == [k |-> "none"]
Verdict(a, x, y, z) == CASE a.k = "none" -> {2} [] a.k = "coll" -> CollV(a, x, y, z) [] a.k = "prof" -> ProfV(a.ks, x, y, z) [] OTHER -> ShapeV(a.k, a.p, x, y)

(* tables: each row [s (the end), len, k, p] that is not blank says what the aperture is at both its ends *)
RECURSIVE Knots(_), Upto(_, _), Later(_, _)
Knots(rows) == IF rows = <<>> THEN <<>> ELSE LET r == Head(rows) IN
   (IF r.k = "blank" THEN <<>> ELSE <<[s |-> r.s - r.len, k |-> r.k, p |-> r.p], [s |-> r.s, k |-> r.k, p |-> r.p]>>) \o Knots(Tail(rows))
\* the entries of a sorted list before / not before a place
Upto(ks, s) == IF ks = <<>> THEN <<>> ELSE (IF Head(ks).s < s THEN <<Head(ks)>> ELSE <<>>) \o Upto(Tail(ks), s)
Later(ks, s) == IF ks = <<>> THEN <<>> ELSE (IF Head(ks).s >= s THEN <<Head(ks)>> ELSE <<>>) \o Later(Tail(ks), s)
\* relative to an element
RECURSIVE Rel(_, _)
Rel(ks, pos) == IF ks = <<>> THEN <<>> ELSE <<[Head(ks) EXCEPT !.s = @ - pos]>> \o Rel(Tail(ks), pos)
\* the points that matter for a drift: the last before it (the machine being a ring), those in it, and the first after it
Window(ks, pos, len) ==
  LET b == Upto(ks, pos)  l == Later(ks, pos)  m == Upto(l, pos + len + 1)  a == Later(l, pos + len + 1)
      pre == IF b = <<>> THEN <<[ks[Len(ks)] EXCEPT !.s = pos]>> ELSE <<b[Len(b)]>>
      post == IF a = <<>> THEN <<[ks[1] EXCEPT !.s = pos + len]>> ELSE <<a[1]>>
  IN pre \o m \o post
Varies(ks) == \E i \in 2..Len(ks) : ks[i].k # ks[1].k \/ ks[i].p # ks[1].p
Fixed(n) == [k |-> n.k, p |-> FromRow(n.k, n.p)]
\* e = [ty, len, ap], at pos
Given(e, pos, ks) ==
  IF e.ap.k # "none" \/ e.len = 0 \/ ks = <<>> THEN e.ap
  ELSE IF e.ty # "Drift" THEN LET l == Later(ks, pos) IN IF l = <<>> THEN None ELSE Fixed(l[1])
  ELSE LET w == Window(ks, pos, e.len) IN [k |-> "prof", ks |-> Rel(w, pos), len |-> e.len]
RECURSIVE Configure(_, _, _)
Configure(els, pos, ks) == IF els = <<>> THEN <<>> ELSE <<[Head(els) EXCEPT !.ap = Given(Head(els), pos, ks)]>> \o Configure(Tail(els), pos + Head(els).len, ks)
\* an aperture is of a fixed kind where its profile is constant, interpolated where it varies within the element
SameAs(a, b) == a.k = b.k /\ a.p = b.p
MustVary(w, len) == \E i, j \in 1..Len(w) : i < j /\ w[i].s < w[j].s /\ w[i].s <= len /\ w[j].s >= 0 /\ w[i].s >= 0 /\ w[j].s <= len /\ ~SameAs(w[i], w[j])
TypeOk(a, got) ==
  CASE a.k = "none" -> got = "none"
    [] a.k = "prof" -> IF ~Varies(a.ks) THEN got = TName(a.ks[1].k)
                       ELSE IF MustVary(a.ks, a.len) THEN got \notin {"none", "CIRCLE", "RECTANGLE", "ELLIPSE", "RECTELLIPSE", "OCTAGON"} ELSE got # "none"
    [] a.k = "coll" -> FALSE
    [] OTHER -> got = TName(a.k)

(* survey: at each place the limits along +x, -x, +y, -y, in micrometres (none: 1 m) *)
\* z: place in the element in units; limits are found to about a micrometre
Near(lim, num, den) == Abs(lim * den - 15625 * num) <= 3 * den
Limit(a, dir, z, lim) == \* lim is right if the aperture lets a point just below it through and not one just above
  CASE a.k = "none" -> lim = 1000000
    [] a.k = "circ" -> Near(lim, a.p[1], 1)
    [] a.k \in {"rect", "ell", "oct"} -> Near(lim, IF dir <= 2 THEN a.p[1] ELSE a.p[2], 1)
    [] a.k = "rectell" -> Near(lim, IF dir <= 2 THEN Min(a.p[1], a.p[3]) ELSE Min(a.p[2], a.p[4]), 1)
    [] a.k = "coll" -> LET L == a.len  w == a.w * L + (a.wx - a.w) * z  h == a.h * L + (a.hx - a.h) * z
                           ox == a.ox * L + (a.oxe - a.ox) * z  oy == a.oy * L + (a.oye - a.oy) * z
                       IN Near(lim, CASE dir = 1 -> w + 2 * ox [] dir = 2 -> w - 2 * ox [] dir = 3 -> h + 2 * oy [] dir = 4 -> h - 2 * oy, 2 * L)
    [] a.k = "prof" -> \E i \in 1..(Len(a.ks) - 1) : LET u == a.ks[i]  v == a.ks[i + 1]  D == v.s - u.s  n == z - u.s IN
         /\ u.s < v.s /\ u.s <= z /\ z <= v.s
         /\ IF u.k = "oct" \/ v.k = "oct" \/ (u.k = "rect" /\ v.k = "rect")
            THEN Near(lim, IF dir <= 2 THEN Lin(u.p[1], v.p[1], 1, n, D) ELSE Lin(u.p[2], v.p[2], 2, n, D), D)
            ELSE IF ~Known(u, v) THEN TRUE
            ELSE LET P == LinP("rectell", AsRE(u.k, u.p), AsRE(v.k, v.p), n, D) IN
                 Near(lim, IF dir <= 2 THEN Min(P[1], P[3]) ELSE Min(P[2], P[4]), D)
\* places: points per element / every step within each element, and its end / every step along the machine
RECURSIVE Steps(_, _, _), Survey(_, _, _, _, _)
Steps(z, step, last) == IF z > last THEN <<>> ELSE <<z>> \o Steps(z + step, step, last)
Even(n, L) == [i \in 1..n |-> IF n = 1 THEN 0 ELSE ((i - 1) * L) \div (n - 1)]
FirstAt(step, pos) == ((pos + step - 1) \div step) * step - pos
Places(mode, step, len, pos) ==
  CASE mode = "points" -> Even(step, len)
    [] mode = "dist" -> Steps(0, step, len) \o <<len>>
    [] mode = "abs" -> Steps(FirstAt(step, pos), step, len - 1)
\* the lines: <<element, place in it>>
Survey(els, n, pos, mode, step) == IF n > Len(els) THEN <<>>
  ELSE LET e == els[n]  z == IF e.len = 0 THEN <<>> ELSE Places(mode, step, e.len, pos) IN
       [i \in 1..Len(z) |-> <<n, z[i], pos>>] \o Survey(els, n + 1, pos + e.len, mode, step)
=============================================================================
