------------------------------- MODULE Track -------------------------------
(* Tracking of a bunch through a lattice: bunch processes and their steps,   *)
(* runs, continued runs, stepping, and output.                               *)
(* The lattice is a tree of frames (module Geom) of field-free components, so *)
(* that rays <<x, x', y, y'>> stay exact integers (unit: half a metre).       *)
EXTENDS Geom

(* ---- rays ---- *)
\* change of coordinates of a ray (no rotations out of the transverse plane)
RT(T, r) == LET X == MV(T.r, <<r[1] - T.x[1], r[3] - T.x[2], -T.x[3]>>)
                V == MV(T.r, <<r[2], r[4], 1>>)
            IN <<X[1] - X[3] * V[1], V[1], X[2] - X[3] * V[2], V[2]>>
\* (sequences are built by concatenation: TLC would evaluate functions lazily, over and over)
RECURSIVE RTs(_, _), Drifts(_, _)
RTs(T, rs) == IF rs = <<>> THEN <<>> ELSE <<RT(T, Head(rs))>> \o RTs(T, Tail(rs))
Drift(r, s) == <<r[1] + s * r[2], r[2], r[3] + s * r[4], r[4]>>
Drifts(rs, s) == IF rs = <<>> THEN <<>> ELSE <<Drift(Head(rs), s)>> \o Drifts(Tail(rs), s)

(* ---- processes: [id, pr, act, lim, g, thr, ini]; process 0 transports the bunch ---- *)
Transport == [id |-> 0, pr |-> 0, act |-> "always", lim |-> "none", g |-> 0, thr |-> 0, ini |-> TRUE]
RECURSIVE Insert(_, _)
Insert(ps, p) == IF ps = <<>> THEN <<p>>
                 ELSE IF p.pr >= 0 /\ p.pr < Head(ps).pr THEN <<p>> \o ps
                 ELSE <<Head(ps)>> \o Insert(Tail(ps), p)
RECURSIVE Remove(_, _)
Remove(ps, id) == IF ps = <<>> THEN <<>> ELSE IF Head(ps).id = id THEN Tail(ps) ELSE <<Head(ps)>> \o Remove(Tail(ps), id)
Has(ps, id) == \E i \in 1..Len(ps) : ps[i].id = id
Sorted(ps) == \A i, j \in 1..Len(ps) : i < j => ps[i].pr <= ps[j].pr

(* ---- one component: c = [n, ty, len] ---- *)
ActiveIn(p, c) == p.act \in {"always", "once"} \/ (p.act = "quad" /\ c.ty = "Quadrupole") \/ (p.act = "long" /\ c.len >= 4)
Inf == 1000000
Limit(p, s, k) == CASE p.lim = "max" -> p.g
                    [] p.lim = "grid" -> p.g - (s % p.g)
                    [] p.lim = "ent" -> IF k = 0 THEN 0 ELSE Inf
                    [] OTHER -> Inf
RECURSIVE MinLimit(_, _, _, _, _)
MinLimit(ps, on, s, k, d) == IF ps = <<>> THEN d
  ELSE LET m == MinLimit(Tail(ps), Tail(on), s, Tail(k), d) IN
       IF Head(on) /\ Limit(Head(ps), s, Head(k)) < m THEN Limit(Head(ps), s, Head(k)) ELSE m
\* the active processes act in turn; an exception of a process ends everything
RECURSIVE Act1(_, _, _, _, _, _, _)
Act1(ps, on, c, s, ds, rays, withRays) ==
  IF ps = <<>> THEN [rays |-> rays, calls |-> <<>>, on |-> <<>>, stop |-> FALSE]
  ELSE LET p == Head(ps)
           r2 == IF Head(on) /\ p.id = 0 THEN Drifts(rays, ds) ELSE rays
           call == IF ~Head(on) \/ p.id = 0 THEN <<>>
                   ELSE IF withRays /\ p.ini THEN <<<<"do", p.id, c.n, s, ds, rays>>>> ELSE <<<<"do", p.id, c.n, s, ds>>>>
           o2 == Head(on) /\ p.act # "once"
       IN IF Head(on) /\ p.thr # 0 /\ p.thr = c.n
          THEN [rays |-> r2, calls |-> call, on |-> on, stop |-> TRUE]
          ELSE LET rest == Act1(Tail(ps), Tail(on), c, s, ds, r2, withRays) IN
               [rays |-> rest.rays, calls |-> call \o rest.calls, on |-> <<o2>> \o rest.on, stop |-> rest.stop]
RECURSIVE Bump(_, _), OnIn(_, _), Zeros(_)
Bump(on, k) == IF on = <<>> THEN <<>> ELSE <<IF Head(on) THEN Head(k) + 1 ELSE Head(k)>> \o Bump(Tail(on), Tail(k))
OnIn(ps, c) == IF ps = <<>> THEN <<>> ELSE <<ActiveIn(Head(ps), c)>> \o OnIn(Tail(ps), c)
Zeros(n) == IF n = 0 THEN <<>> ELSE <<0>> \o Zeros(n - 1)
RECURSIVE Steps(_, _, _, _, _, _, _)
Steps(ps, on, k, c, s, rays, withRays) ==
  LET ds == MinLimit(ps, on, s, k, c.len - s)
      a == Act1(ps, on, c, s, ds, rays, withRays)
      k2 == Bump(on, k)
      tr0 == IF \E i \in 1..Len(ps) : ps[i].id = 0 /\ on[i] THEN ds ELSE 0
  IN IF a.stop \/ s + ds = c.len THEN [rays |-> a.rays, calls |-> a.calls, stop |-> a.stop, t |-> tr0]
     ELSE LET r == Steps(ps, a.on, k2, c, s + ds, a.rays, withRays) IN
          [rays |-> r.rays, calls |-> a.calls \o r.calls, stop |-> r.stop, t |-> tr0 + r.t]
RECURSIVE Sets(_, _)
Sets(ps, c) == IF ps = <<>> THEN <<>> ELSE (IF Head(ps).id = 0 THEN <<>> ELSE <<<<"set", Head(ps).id, c.n>>>>) \o Sets(Tail(ps), c)
RECURSIVE Inits(_)
Inits(ps) == IF ps = <<>> THEN <<>> ELSE (IF Head(ps).id = 0 THEN <<>> ELSE <<<<"init", Head(ps).id>>>>) \o Inits(Tail(ps))
Initialised(ps) == [i \in 1..Len(ps) |-> [ps[i] EXCEPT !.ini = TRUE]]
TrackComp(ps, c, rays, withRays) ==
  LET r == Steps(ps, OnIn(ps, c), Zeros(Len(ps)), c, 0, rays, withRays)
  IN [r EXCEPT !.calls = Sets(ps, c) \o @]

(* ---- runs; a simulation sm is a record (see TraceTrack) ---- *)
Comp(n) == [n |-> n, ty |-> tr[n].ty, len |-> tr[n].len]
Frames(ring, a, b) == LET as == Atoms(1) IN
  IF ring THEN SubSeq(as, a + 1, Len(as)) \o SubSeq(as, 1, a) ELSE SubSeq(as, a + 1, b + 1)
Selected(sm, n) == sm.out /\ (sm.oall \/ \E i \in 1..Len(sm.pats) : Match(sm.pats[i], tr[n].ty \o ".n" \o ToString(n)))
\* one frame: coordinate change, component (or patch), coordinate change, output
Visit(sm, ps, n, first, rays, t) ==
  LET r1 == IF sm.flat \/ (first /\ sm.inj) THEN rays ELSE RTs(Entry(n), rays) IN
  IF tr[n].k = "patch"
  THEN LET r2 == RTs(AtomTotal(n), r1) IN [rays |-> IF sm.flat THEN r2 ELSE RTs(Exit(n), r2), t |-> t, calls |-> <<>>, recs |-> <<>>, stop |-> FALSE]
  ELSE LET k == TrackComp(ps, Comp(n), r1, TRUE)
           r3 == IF sm.flat THEN k.rays ELSE RTs(Exit(n), k.rays)
       IN IF k.stop THEN [rays |-> k.rays, t |-> t + k.t, calls |-> k.calls, recs |-> <<>>, stop |-> TRUE]
          ELSE [rays |-> r3, t |-> t + k.t, calls |-> k.calls, stop |-> FALSE,
                recs |-> IF Selected(sm, n) THEN <<<<n, t + k.t, r3>>>> ELSE <<>>]
RECURSIVE Pass(_, _, _, _, _, _)
Pass(sm, ps, fs, first, rays, t) ==
  LET v == Visit(sm, ps, Head(fs), first, rays, t) IN
  IF v.stop \/ Len(fs) = 1 THEN v
  ELSE LET r == Pass(sm, ps, Tail(fs), FALSE, v.rays, v.t) IN
       [rays |-> r.rays, t |-> r.t, calls |-> v.calls \o r.calls, recs |-> v.recs \o r.recs, stop |-> r.stop]
Run(sm, ps, init, rays, t) ==
  LET p == Pass(sm, ps, sm.fr, TRUE, rays, t)
      ini == IF sm.out /\ sm.oini THEN <<<<-1, t, rays>>>> ELSE <<>>
      fin == IF sm.out /\ sm.ofin /\ (~p.stop \/ sm.handle) THEN <<<<-2, p.t, p.rays>>>> ELSE <<>>
  IN [rays |-> p.rays, t |-> p.t, exc |-> p.stop /\ ~sm.handle,
      calls |-> (IF init THEN Inits(ps) ELSE <<>>) \o p.calls, recs |-> ini \o p.recs \o fin]

(* ---- laws ---- *)
RECURSIVE PathLen(_)
PathLen(fs) == IF fs = <<>> THEN 0 ELSE (IF tr[Head(fs)].k = "patch" THEN 0 ELSE tr[Head(fs)].len) + PathLen(Tail(fs))
=============================================================================
