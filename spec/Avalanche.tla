------------------------------ MODULE Avalanche ------------------------------
(* Avalanching of the bed.  z[j][i] is the bed level, ne the level below which *)
(* nothing can move, ds (per cell) and dn (per cell) the grid spacings.  The   *)
(* outermost cells never give sand away and what slides onto them leaves the   *)
(* domain; with a single row there is no lateral direction.                    *)
EXTENDS Num, Integers, Sequences

AI(g) == Len(g[1])
AJ(g) == Len(g)
Rate == "0.2"

Inside(z, j, i) == i > 1 /\ i < AI(z) /\ (AJ(z) = 1 \/ (j > 1 /\ j < AJ(z)))
\* drop towards the lower of the two neighbours
Drop(c, l, r, d) == RMax(0, c -- RMin(l, r)) // d
DropS(z, ds, j, i) == IF Inside(z, j, i) THEN Drop(z[j][i], z[j][i-1], z[j][i+1], ds[j][i]) ELSE R(0)
DropN(z, dn, j, i) == IF Inside(z, j, i) /\ AJ(z) > 1 THEN Drop(z[j][i], z[j-1][i], z[j+1][i], dn[j][i]) ELSE R(0)
Slope(z, ds, dn, j, i) ==
    LET a == DropS(z, ds, j, i)  b == DropN(z, dn, j, i) IN RSqrt((a ** a) ++ (b ** b))
MaxSlope(z, ds, dn) == RMaxSeq([j \in 1..AJ(z) |-> RMaxSeq([i \in 1..AI(z) |-> Slope(z, ds, dn, j, i)])])
\* sand put in motion: what exceeds the dynamic slope, at most what covers ne
Motion(z, ne, ds, dn, td, j, i) ==
    LET g == Slope(z, ds, dn, j, i)
        cover == RMax(0, z[j][i] -- ne[j][i])
        h == (z[j][i] -- ne[j][i]) // ds[j][i]
    IN RMin(cover, IF h \prec (g -- td) THEN RTanh(h)
                   ELSE IF g \succ td /\ h \succ 0 THEN RTanh(g) -- RTanh("0.9" ** td)
                   ELSE R(0))
\* part of the motion of cell (j,i) in the s and n direction
OutS(z, ne, ds, dn, td, j, i) ==
    LET g == Slope(z, ds, dn, j, i) IN
    IF REq(g, 0) THEN R(0) ELSE Motion(z, ne, ds, dn, td, j, i) ** (DropS(z, ds, j, i) // g)
OutN(z, ne, ds, dn, td, j, i) ==
    LET g == Slope(z, ds, dn, j, i) IN
    IF REq(g, 0) THEN R(0) ELSE Motion(z, ne, ds, dn, td, j, i) ** (DropN(z, dn, j, i) // g)
\* the lower neighbour gets it, equal neighbours share it
Share(mine, other) == IF mine \prec other THEN R(1) ELSE IF REq(mine, other) THEN R("0.5") ELSE R(0)

Slide(z, ne, ds, dn, td) ==
    LET J == AJ(z)  I == AI(z)
        os == [j \in 1..J |-> [i \in 1..I |-> R(OutS(z, ne, ds, dn, td, j, i))]]
        on == [j \in 1..J |-> [i \in 1..I |-> R(OutN(z, ne, ds, dn, td, j, i))]]
        fromW(j, i) == IF i > 2 THEN os[j][i-1] ** Share(z[j][i], z[j][i-2]) ELSE R(0)
        fromE(j, i) == IF i < I - 1 THEN os[j][i+1] ** Share(z[j][i], z[j][i+2]) ELSE R(0)
        fromS(j, i) == IF j > 2 THEN on[j-1][i] ** Share(z[j][i], z[j-2][i]) ELSE R(0)
        fromN(j, i) == IF j < J - 1 THEN on[j+1][i] ** Share(z[j][i], z[j+2][i]) ELSE R(0)
    IN [j \in 1..J |-> [i \in 1..I |->
          IF ~Inside(z, j, i) THEN R(z[j][i])
          ELSE z[j][i] ++ (Rate ** (((fromW(j, i) ++ fromE(j, i)) ++ (IF J > 1 THEN fromS(j, i) ++ fromN(j, i) ELSE R(0)))
                                    -- (os[j][i] ++ on[j][i])))]]

\* what leaves the domain in one slide
Lost(z, ne, ds, dn, td) ==
    LET J == AJ(z)  I == AI(z)
        lostS(j) == (IF Inside(z, j, 2) THEN OutS(z, ne, ds, dn, td, j, 2) ** Share(z[j][1], z[j][3]) ELSE R(0))
                 ++ (IF Inside(z, j, I-1) THEN OutS(z, ne, ds, dn, td, j, I-1) ** Share(z[j][I], z[j][I-2]) ELSE R(0))
        lostN(i) == IF J = 1 THEN R(0)
                    ELSE (IF Inside(z, 2, i) THEN OutN(z, ne, ds, dn, td, 2, i) ** Share(z[1][i], z[3][i]) ELSE R(0))
                      ++ (IF Inside(z, J-1, i) THEN OutN(z, ne, ds, dn, td, J-1, i) ** Share(z[J][i], z[J-2][i]) ELSE R(0))
    IN Rate ** (RSum([j \in 1..J |-> lostS(j)]) ++ RSum([i \in 1..I |-> lostN(i)]))

Volume(z) == RSum(RFlat(z))

RECURSIVE Slides(_, _, _, _, _, _)
Slides(z, ne, ds, dn, td, n) ==
    IF n = 0 \/ MaxSlope(z, ds, dn) \prec td THEN z
    ELSE Slides(RForce(Slide(z, ne, ds, dn, td)), ne, ds, dn, td, n - 1)
Settle(z, ne, ds, dn, ts, td, n) ==
    IF MaxSlope(z, ds, dn) \succ ts THEN Slides(z, ne, ds, dn, td, n) ELSE z
=============================================================================
