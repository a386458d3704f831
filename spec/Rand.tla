------------------------------- MODULE Rand -------------------------------
(* Random streams. A stream is known by the seed and its name; what it delivers next is a function of
   the seed, the name and the requests made of this stream since it was (re)started - and of nothing else. Numbers are
   opaque: the function is learnt from the first delivery and every later one must agree. *)
EXTENDS Rat, Sequences
(* on: seeded; hist: the streams used, each <<name, requests>> *)
AbsR(r) == <<Abs(r[1]), r[2]>>
Fresh == [on |-> FALSE, seed |-> <<>>, hist |-> {}, held |-> {}]
Hist(s, n) == IF \E h \in s.hist : h[1] = n THEN (CHOOSE h \in s.hist : h[1] = n)[2] ELSE <<>>
WithHist(s, n, r) == [s EXCEPT !.hist = {h \in @ : h[1] # n} \cup (IF r = <<>> THEN {} ELSE {<<n, r>>})]
Seeded(s, sd) == [s EXCEPT !.on = TRUE, !.seed = sd, !.hist = {}]   \* references to streams stay what they are
Again(s) == [s EXCEPT !.hist = {}]
Restart(s, n) == WithHist(s, n, <<>>)
Asked(s, n, r) == WithHist(s, n, Append(Hist(s, n), r))
RECURSIVE AskedN(_, _, _, _)
AskedN(s, n, r, k) == IF k = 0 THEN s ELSE AskedN(Asked(s, n, r), n, r, k - 1)
Hold(s, i, n) == [s EXCEPT !.held = {h \in @ : h[1] # i} \cup {<<i, n>>}]
Held(s, i) == (CHOOSE h \in s.held : h[1] = i)[2]
Key(s, n) == <<s.seed, n, Hist(s, n)>>
(* stream of a kind of request *)
Photon == "PhotonSpectrumGen"
StreamOf(k) == IF k \in {"HB", "AW"} THEN Photon ELSE ""
(* the request as far as it matters: numbers are in units of the distribution *)
Request(e) == IF e.b = <<0, 1>> /\ e.kind \in {"normal", "cut", "uniform"} THEN <<"none", e.kind>>
              ELSE IF e.kind \in {"cut"} THEN <<e.kind, AbsR(e.c)>> ELSE IF e.kind = "poisson" THEN <<e.kind, e.a>> ELSE <<e.kind>>
Tok(r) == (r[1] * 100000) \div r[2]
(* every number is in the range of its distribution; a million is 10^5 units here *)
InRange(e, x) ==
  IF e.b = <<0, 1>> /\ e.kind \in {"normal", "cut", "uniform"} THEN x = 0
  ELSE CASE e.kind = "cut" -> e.c = <<0, 1>> \/ (x <= Tok(AbsR(e.c)) + 1 /\ -x <= Tok(AbsR(e.c)) + 1)
         [] e.kind = "uniform" -> x >= 0 /\ x <= 100000
         [] e.kind = "poisson" -> x >= 0 /\ x % 100000 = 0
         [] e.kind \in {"HB", "AW"} -> x >= 0
         [] OTHER -> x < 2000000000
(* 1024 numbers: mean and variance in thousandths, all bounds more than six standard deviations wide *)
Near(x, y, d) == x - y <= d /\ y - x <= d
CutVar(c) == IF c = <<1, 2>> THEN 81 ELSE IF c = <<1, 1>> THEN 291 ELSE IF c = <<2, 1>> THEN 774 ELSE IF c = <<3, 1>> THEN 973 ELSE 1000
StatsOk(e) ==
  CASE e.kind = "normal" \/ (e.kind = "cut" /\ e.c = <<0, 1>>) -> Near(e.mean, 0, 200) /\ Near(e.var, 1000, 290) /\ e.lo < -200000 /\ e.hi > 200000
    [] e.kind = "cut" -> LET v == CutVar(AbsR(e.c)) IN Near(e.mean, 0, 200) /\ Near(e.var, v, (v * 29) \div 100) /\ e.lo < -Tok(AbsR(e.c)) \div 2 /\ e.hi > Tok(AbsR(e.c)) \div 2
                         /\ InRange(e, e.lo) /\ InRange(e, e.hi)
    [] e.kind = "uniform" -> Near(e.mean, 500, 60) /\ Near(e.var, 83, 16) /\ e.lo >= 0 /\ e.hi <= 100000 /\ e.lo < 10000 /\ e.hi > 90000
    [] e.kind = "poisson" -> LET u == (e.a[1] * 1000) \div e.a[2] IN
          e.whole /\ e.lo >= 0 /\ (e.mean - u) * (e.mean - u) <= 42 * u + 42 /\ Near(e.var, u, u \div 3 + 7 * 31)
    [] e.kind = "landau" -> Near(e.below[1], 256, 90) /\ Near(e.below[2], 512, 104) /\ Near(e.below[3], 768, 90) /\ e.lo > -400000
    (* synchrotron photons: mean energy 0.308, variance 0.333 (Sands) in critical energies *)
    [] e.kind = "HB" -> Near(e.mean, 308, 110) /\ e.lo >= 0
    [] OTHER -> e.lo >= 0
===========================================================================
