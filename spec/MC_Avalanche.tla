---------------------------- MODULE MC_Avalanche ----------------------------
(* All small beds (one or three rows) sliding to rest.                        *)
EXTENDS Avalanche, FiniteSets, TLC
CONSTANTS NI1, NI2, Heights, Floors, MaxIt
VARIABLES z, ne, moving, n, lost

ts == RTan("0.593411945678072")       \* 34 degrees
td == RTan("0.575958653158129")       \* 33 degrees
H(k) == "0.5" ** k
Spac(J, I) == [j \in 1..J |-> [i \in 1..I |-> R(1)]]
ds == Spac(Len(z), Len(z[1]))
Grid(J, I, S) == [1..J -> [1..I -> S]]
Init == /\ \E f \in Floors : \E g \in (Grid(1, NI1, Heights) \cup
               {h \in Grid(3, NI2, Heights) : h[1] = h[3] /\ \A i \in 1..NI2 : h[1][i] = 0}) :
              /\ z = [j \in 1..Len(g) |-> [i \in 1..Len(g[1]) |-> R(H(g[j][i]))]]
              /\ ne = [j \in 1..Len(g) |-> [i \in 1..Len(g[1]) |-> RMin(R(f), R(H(g[j][i])))]]
        /\ moving = (MaxSlope(z, ds, ds) \succ ts) /\ n = 0 /\ lost = R(0)
Next == /\ moving /\ n < MaxIt
        /\ n' = n + 1
        /\ lost' = lost ++ Lost(z, ne, ds, ds, td)
        /\ z' = RForce(Slide(z, ne, ds, ds, td))
        /\ moving' = ~(MaxSlope(z', ds, ds) \prec td)
        /\ ne' = ne
vars == <<z, ne, moving, n, lost>>
Spec == Init /\ [][Next]_vars

AboveFloor == \A j \in 1..Len(z) : \A i \in 1..Len(z[1]) : z[j][i] \succeq (ne[j][i] -- "1e-12")
Conserved  == [][ RClose(Volume(z) -- Volume(z'), lost' -- lost, "1e-12") ]_vars
NoNewPeak  == [][ RMaxSeq(RFlat(z')) \preceq (RMaxSeq(RFlat(z)) ++ "1e-12") ]_vars
NoNewPit   == [][ RMinSeq(RFlat(z')) \succeq (RMinSeq(RFlat(z)) -- "1e-12") ]_vars
\* beds that can move come to rest
Rests      == n = MaxIt => ~moving
=============================================================================
