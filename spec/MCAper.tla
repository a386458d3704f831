----------------------------- MODULE MCAper -----------------------------
\* every small shape, every small profile of up to NK points, and every point of a grid around them
EXTENDS Aper, Json, TLC
CONSTANTS N, NK, Grid, Gaps, Show
VARIABLES k, ks, done
vars == <<k, ks, done>>
G == -Grid..Grid
Sz == 1..N
Octs == {<<a, b, c, d>> : a \in Sz, b \in Sz, c \in {0, 1, 2, 3, 4}, d \in {0, 2, 4, 6}}
Valid(p) == p[1] * p[3] <= 4 * p[2] /\ p[2] * p[4] <= 4 * p[1]
Pars(kk) == CASE kk = "circ" -> {<<a>> : a \in Sz} [] kk \in {"rect", "ell"} -> {<<a, b>> : a \in Sz, b \in Sz}
            [] kk = "rectell" -> {<<a, b, c, d>> : a \in Sz, b \in Sz, c \in Sz, d \in {1, N}} [] kk = "oct" -> {p \in Octs : Valid(p)}
Init == /\ k \in Kinds /\ done = FALSE
        /\ \E p \in Pars(k) : ks = <<[s |-> 0, k |-> k, p |-> p]>>
\* further points of the profile
Grow == /\ ~done /\ k # "rect" /\ Len(ks) < NK /\ (k \in {"circ", "ell"} \/ Len(ks) < 2)
        /\ \E g \in Gaps : \E p \in Pars(k) : /\ ((k = "oct") => p[3] = ks[1].p[3] /\ p[4] = ks[1].p[4])
                                              /\ (Len(ks) = 1 => g > 0)
                                              /\ ((k \in {"rectell", "oct"}) => p[2] = N)
                                              /\ ks' = ks \o <<[s |-> ks[Len(ks)].s + g, k |-> k, p |-> p]>>
        /\ UNCHANGED <<k, done>>
\* laws of the shapes
Shape(p) == \A x \in 0..Grid : \A y \in 0..Grid : \E s \in {Side(k, p, x, y)} :
  /\ Side(k, p, -x, y) = s /\ Side(k, p, x, -y) = s /\ Side(k, p, -x, -y) = s
  /\ Side(k, LinP(k, p, p, 1, 3), 3 * x, 3 * y) = s
  /\ (s = 1 /\ x > 0 => Side(k, p, x - 1, y) = 1) /\ (s = 1 /\ y > 0 => Side(k, p, x, y - 1) = 1)
  /\ (k = "circ" => Ell(p[1], p[1], x, y) = s /\ Side("rectell", AsRE(k, p), x, y) = s)
  /\ (k = "ell" => Side("rectell", AsRE(k, p), x, y) = s /\ Ell(p[2], p[1], y, x) = s)
  /\ (k = "rectell" => s <= Rect(p[1], p[2], x, y) /\ s <= Ell(p[3], p[4], x, y) /\ (s = 1 => x < Min(p[1], p[3]) /\ y < Min(p[2], p[4])))
  /\ (k = "oct" => s <= Rect(p[1], p[2], x, y) /\ (p[3] = 0 /\ p[4] = 0 => s = Sgn(p[1] * p[2] - x * p[2] - y * p[1]))
                   /\ (s = 1 => Diag(p[2], p[1], p[4], p[3], y, x) = 1))
  /\ ShapeV(k, p, x, y) # {} /\ (x = 0 /\ y = 0 => s = 1 \/ (k = "oct" /\ p[1] * p[3] = 4 * p[2] /\ p[2] * p[4] = 4 * p[1]))
L == ks[Len(ks)].s
RECURSIVE Rev(_)
Rev(q) == IF q = <<>> THEN <<>> ELSE Rev(Tail(q)) \o <<[Head(q) EXCEPT !.s = L - @]>>
Step(z) == \E i \in 1..(Len(ks) - 1) : ks[i].s = z /\ ks[i + 1].s = z
Convex == k # "oct"
Profile == \A x \in 0..Grid : \A y \in 0..Grid : \A z \in 0..L : \E v \in {ProfV(ks, x, y, z)} :
  /\ v # {} /\ v = ProfV(Rev(ks), x, y, L - z) /\ v = ProfV(ks, -x, y, z) /\ (z = 0 => v = ProfV(ks, x, y, -3))
  /\ \A i \in 1..Len(ks) : z = ks[i].s => (IF Step(z) THEN TRUE ELSE v = Of(Side(k, ks[i].p, x, y), FALSE))
  /\ \A i \in 1..(Len(ks) - 1) : LET a == ks[i] b == ks[i + 1] IN
       a.s < z /\ z < b.s =>
          /\ (Convex /\ Side(k, a.p, x, y) = 1 /\ Side(k, b.p, x, y) = 1 => v = {1})
          /\ (k = "circ" /\ Side(k, a.p, x, y) = -1 /\ Side(k, b.p, x, y) = -1 => v = {0})
          /\ (a.p = b.p => v = Of(Side(k, a.p, x, y), FALSE))
Laws == IF Len(ks) = 1 THEN Shape(ks[1].p) ELSE Profile
Next == \/ Grow
        \/ /\ ~done /\ done' = TRUE /\ UNCHANGED <<k, ks>> /\ Assert(Laws, <<"a law fails", k, ks>>)
           /\ (IF Show THEN PrintT("SCRIPT" \o ToJson([k |-> k, ks |-> ks])) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=========================================================================
