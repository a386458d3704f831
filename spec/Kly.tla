------------------------------- MODULE Kly -------------------------------
(* klystrons and the cavities they drive (K02).
   cav: the voltage vectors of the cavities, complex fractions;
   kly: [cs |-> the cavities, sum |-> vector-sum mode, v, u |-> set vector v*u, |u| = 1] *)
EXTENDS Rat
RECURSIVE SumOf(_, _, _), PutAt(_, _, _)
SumOf(cav, cs, k) == IF k > Len(cs) THEN CZero ELSE CAdd(cav[cs[k]], SumOf(cav, cs, k + 1))
Vec(v, u) == Scale(v, u)
CBad(z) == IsBad(z[1]) \/ IsBad(z[2])
CDiv(a, b) == LET n == Add(Mul(b[1], b[1]), Mul(b[2], b[2])) IN CDivR(CMul(a, <<b[1], Neg(b[2])>>), n)
(* cavity i set to z, for the pairs <<i, z>> *)
PutAt(cav, ps, k) == IF k > Len(ps) THEN cav ELSE PutAt([cav EXCEPT ![ps[k][1]] = ps[k][2]], ps, k + 1)
RECURSIVE Shares(_, _, _), Scaled(_, _, _, _)
Shares(cs, z, k) == IF k > Len(cs) THEN <<>> ELSE <<<<cs[k], z>>>> \o Shares(cs, z, k + 1)
Scaled(cav, cs, w, k) == IF k > Len(cs) THEN <<>> ELSE <<<<cs[k], CMul(w, cav[cs[k]])>>>> \o Scaled(cav, cs, w, k + 1)
BadC == <<Bad, Bad>>
(* the demanded vector z reaches the cavities *)
Balanced(cav, cs, z) == PutAt(cav, Shares(cs, CDivR(z, I(Len(cs))), 1), 1)
VectorSum(cav, cs, z) ==
  LET s == SumOf(cav, cs, 1) IN
  IF z = CZero THEN Balanced(cav, cs, z)
  ELSE IF CBad(s) THEN PutAt(cav, Shares(cs, BadC, 1), 1)
  ELSE IF s = CZero THEN Balanced(cav, cs, z)
  ELSE PutAt(cav, Scaled(cav, cs, CDiv(z, s), 1), 1)
Drive(cav, k) == IF k.sum THEN VectorSum(cav, k.cs, Vec(k.v, k.u)) ELSE Balanced(cav, k.cs, Vec(k.v, k.u))
(* a klystron taken over from its cavities, whose sum is v*u *)
Fits(cav, k) == /\ CMul(k.u, <<k.u[1], Neg(k.u[2])>>) = <<One, Zero>> /\ k.v[1] >= 0
                /\ AgreeC(SumOf(cav, k.cs, 1), Vec(k.v, k.u))
Taken(cav, k) == IF k.sum THEN cav ELSE Balanced(cav, k.cs, Vec(k.v, k.u))
=============================================================================
