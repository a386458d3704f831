---------------------------- MODULE MCInstall ----------------------------
\* every sequence of insertions into every small flat lattice
EXTENDS Model, Json
CONSTANTS MaxLat, MaxIns
VARIABLES hist, n
vars == <<mvars, hist, n>>
H(r) == hist' = Append(hist, r)
Kinds == {<<"Drift", "d", 3>>, <<"Quadrupole", "q", 2>>, <<"Marker", "m", 0>>}
Next ==
  \/ /\ Len(lat) < MaxLat /\ phase = "open" /\ n' = n
     /\ \E k \in Kinds : AppendComp(k[1], k[2], k[3], 0) /\ H([op |-> "comp", type |-> k[1], name |-> k[2], len |-> k[3], gap |-> 0])
  \/ lat # <<>> /\ Build /\ H([op |-> "build"]) /\ n' = n
  \/ /\ phase = "built" /\ n < MaxIns /\ n' = n + 1
     /\ \E at \in 1..Total(lat) :
          /\ CanInstall(at) /\ at > StartOf(lat, Host(at))
          /\ Install("Marker", "x" \o ToString(n), at, "d1", "d2")
          /\ H([op |-> "install", type |-> "Marker", name |-> "x" \o ToString(n), at |-> at])
          /\ (n' = MaxIns => PrintT("SCRIPT" \o ToJson(hist')))
Spec == Init /\ hist = <<>> /\ n = 0 /\ [][Next]_vars
TotalKept == [][phase = "built" => Total(lat') = Total(lat)]_vars
\* everything but the split drift keeps its place
OthersKept == [][phase = "built" => \A i \in 1..Len(lat) : lat[i].type # "Drift" =>
    \E j \in 1..Len(lat') : lat'[j] = lat[i] /\ StartOf(lat', j) = StartOf(lat, i)]_vars
=============================================================================
