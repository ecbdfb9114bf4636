----------------------------- MODULE MC_Surface -----------------------------
(* A row of cells whose surface is worked by wind, avalanches, waves and      *)
(* storms in any order.                                                       *)
EXTENDS Surface, FiniteSets, TLC
CONSTANTS NI, Covers, MaxSteps
VARIABLES z, ne, z0, m, n, last

L == "0.01"                                    \* thickness of the top layer
Th == <<R("0.01"), R("0.01"), R("0.02")>>
Shape(i) == "0.4" ** i                         \* the underlying profile
Dune == [x |-> [i \in 1..NI |-> R(i)], toe |-> R("0.8"), slope |-> R("0.1"), Cs |-> R("0.02"), eta |-> R("0.4"), sigma |-> R("0.2"),
         R |-> R("0.6"), tide |-> R(0), Tp |-> R(8), dt |-> R(600)]

Init == /\ \E c \in [1..NI -> Covers] :
              /\ ne = [i \in 1..NI |-> R(Shape(i))]
              /\ z  = [i \in 1..NI |-> Shape(i) ++ c[i]]
              /\ z0 = z
        /\ m = <<<<R(3), R(1)>>, <<R(1), R(3)>>, <<R(4), R(4)>>>>
        /\ n = 0 /\ last = "start"
\* wind removes at most the top layer of covered cells and deposits anywhere
Wind == \E a \in {"0", "0.005"} : \E i \in 1..NI :
          /\ z' = [j \in 1..NI |-> IF j = i THEN (IF Exposed(z[j], ne[j]) THEN z[j] ++ a ELSE z[j] -- RMin(L, z[j] -- ne[j]))
                                   ELSE z[j] ++ a]
          /\ last' = "wind" /\ UNCHANGED m
Waves == \E dod \in {"0.005", "0.02", "0.2"} : m' = RForce(Mix(m, Th, dod)) /\ last' = "mix" /\ UNCHANGED z
Reset == \E zs \in {"0.7", "2"} : \E dt \in {600, 100000} :
          /\ z' = RForce([j \in 1..NI |-> WetReset(z[j], z0[j], zs, dt, 86400)])
          /\ last' = "reset" /\ UNCHANGED m
Storm == \E tide \in {"0", "0.5"} : \E dt \in {600, 60000} :
          /\ z' = RForce(DuneErosion([Dune EXCEPT !.tide = tide, !.dt = dt], z))
          /\ last' = "storm" /\ UNCHANGED m
Next == n < MaxSteps /\ n' = n + 1 /\ UNCHANGED <<ne, z0>> /\ (Wind \/ Waves \/ Reset \/ Storm)
vars == <<z, ne, z0, m, n, last>>
Spec == Init /\ [][Next]_vars

\* dune erosion takes no account of the non-erodible layer: the bound holds for wind alone
AboveLayer == [][last' = "wind" => \A i \in 1..NI : z'[i] \succeq (RMin(z[i], ne[i]) -- "1e-12")]_vars
ExposedStays == [][last' = "wind" => \A i \in 1..NI : Exposed(z[i], ne[i]) => z'[i] \succeq z[i]]_vars
MixConserves == [][\A f \in 1..2 : RClose(ColumnMass(m, f), ColumnMass(m', f), "1e-12")]_vars
ResetTowards == [][last' = "reset" => \A i \in 1..NI : RAbs(z'[i] -- z0[i]) \preceq RAbs(z[i] -- z0[i])]_vars
StormErodes  == [][last' = "storm" => \A i \in 1..NI : z'[i] \preceq z[i]]_vars
\* what is left of the dune never lies below the trajectory of the retreating toe
StormLimited == [][last' = "storm" => \A i \in 1..NI : (z'[i] \prec z[i]) => z'[i] \succeq (R(Dune.toe) -- "1e-12")]_vars
MassPositive == \A l \in 1..3 : \A f \in 1..2 : m[l][f] \succeq 0
=============================================================================
