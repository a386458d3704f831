-------------------------------- MODULE Fb --------------------------------
(* a linear feedback (K03): actuators a, signals (given, or the response
   M a + d of a plant), set points, gain, inverse response P, and the
   settings which wait for their pulse *)
EXTENDS Rat
RECURSIVE DotFrom(_, _, _), MapMul(_, _, _), AddV(_, _, _), SubV(_, _, _), ScaleV(_, _, _), Zeros(_), Col(_, _, _), TrRows(_, _), MulRows(_, _, _)
DotFrom(u, v, k) == IF k > Len(u) THEN Zero ELSE IF u[k] = Zero \/ v[k] = Zero THEN DotFrom(u, v, k + 1) ELSE Add(Mul(u[k], v[k]), DotFrom(u, v, k + 1))
Dot(u, v) == DotFrom(u, v, 1)
MapMul(M, v, i) == IF i > Len(M) THEN <<>> ELSE <<Dot(M[i], v)>> \o MapMul(M, v, i + 1)
MulMV(M, v) == MapMul(M, v, 1)
AddV(u, v, k) == IF k > Len(u) THEN <<>> ELSE <<Add(u[k], v[k])>> \o AddV(u, v, k + 1)
SubV(u, v, k) == IF k > Len(u) THEN <<>> ELSE <<Sub(u[k], v[k])>> \o SubV(u, v, k + 1)
ScaleV(a, v, k) == IF k > Len(v) THEN <<>> ELSE <<Mul(a, v[k])>> \o ScaleV(a, v, k + 1)
Zeros(n) == IF n = 0 THEN <<>> ELSE <<Zero>> \o Zeros(n - 1)
Col(M, j, i) == IF i > Len(M) THEN <<>> ELSE <<M[i][j]>> \o Col(M, j, i + 1)
TrRows(M, j) == IF j > Len(M[1]) THEN <<>> ELSE <<Col(M, j, 1)>> \o TrRows(M, j + 1)
Tr(M) == TrRows(M, 1)
MulRows(A, Bt, i) == IF i > Len(A) THEN <<>> ELSE <<MulMV(Bt, A[i])>> \o MulRows(A, Bt, i + 1)
MulMM(A, B) == MulRows(A, Tr(B), 1)
(* P is the pseudo-inverse of M *)
Penrose(M, P) == LET MP == MulMM(M, P)  PM == MulMM(P, M) IN MulMM(MP, M) = M /\ MulMM(PM, P) = P /\ Tr(MP) = MP /\ Tr(PM) = PM
IsNil(M) == \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) : M[i][j] = Zero
(* the state: f = [a, s, sp, g, P, q, delayed, stored, plant] *)
New(s, a, P) == [a |-> a, s |-> s, sp |-> Zeros(Len(s)), g |-> One, P |-> P, q |-> <<>>, late |-> 0, stored |-> <<>>, closed |-> FALSE, M |-> <<>>, d |-> <<>>]
Signals(f) == IF f.closed THEN AddV(MulMV(f.M, f.a), f.d, 1) ELSE f.s
Error(f) == SubV(Signals(f), f.sp, 1)
Correction(f) == ScaleV(f.g, MulMV(f.P, Error(f)), 1)
Wanted(f) == SubV(f.a, Correction(f), 1)
RECURSIVE Wait(_, _)
Wait(n, k) == IF k = 0 THEN <<>> ELSE <<Zeros(n)>> \o Wait(n, k - 1)
SetDelay(f, n) == [f EXCEPT !.q = Wait(Len(f.a), n - 1)]
Applied(f) == IF f.q = <<>> THEN [f EXCEPT !.a = Wanted(f)] ELSE [f EXCEPT !.a = Head(f.q), !.q = Append(Tail(f.q), Wanted(f))]
MeanSq(v) == Div(Dot(v, v), I(Len(v)))
=============================================================================
