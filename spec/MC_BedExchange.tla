--------------------------- MODULE MC_BedExchange ---------------------------
(* Histories of exchanges on one cell with NL layers and NF = 2 fractions.    *)
(* The layer mass is 8 units; pickups are multiples of 2 units, the erosional *)
(* ones clipped to what the top layer holds, deposits up to 4 layers thick.   *)
EXTENDS BedExchange, FiniteSets, TLC
CONSTANTS NL, MaxSteps, Dump
VARIABLES m, gd, zb, cum, hist

M0   == 8
PK   == {-24, -10, -4, -2, 0, 2, 4, 8}
Gds  == {<<1, 0>>, <<1, 1>>, <<1, 3>>}
NormInt(g) == LET t == g[1] + g[2] IN [f \in 1..2 |-> R(g[f]) // t]
rho  == 100

Init == /\ \E g \in Gds : gd = RForce(NormInt(g)) /\ m = RForce([l \in 1..NL |-> Scale(NormInt(g), M0)])
        /\ zb = R(0) /\ cum = R(0) /\ hist = <<>>
Step(a, b) ==
    LET pk == RForce(<<RMin(a, m[1][1]), RMin(b, m[1][2])>>) IN
    /\ m' = Exchange(m, pk, gd)
    /\ zb' = zb ++ BedRise(pk, rho)
    /\ cum' = cum ++ Total(pk)
    /\ hist' = Append(hist, pk)
    /\ UNCHANGED gd
Next == Len(hist) < MaxSteps /\ \E a, b \in PK : Step(a, b)
Spec == Init /\ [][Next]_<<m, gd, zb, cum, hist>>
View == <<m, gd, Len(hist)>>

Inv_LayerTotals == \A l \in 1..NL : RClose(Total(m[l]), M0, "1e-9")
Inv_NonNegative == NonNegative(m, "1e-9")
Inv_BedLevel    == RClose(zb ** rho, RNeg(cum), "1e-9")
Act_Balance == [][ LET pk == hist'[Len(hist')] IN
                   /\ LayerTotalsKept(m, m', "1e-9", 8)
                   /\ ColumnBalance(m, m', pk, gd, "1e-9", 8) ]_<<m, gd, zb, cum, hist>>
Inv_Dump == (Dump /\ Len(hist) = MaxSteps) =>
    JAppend(JEnv("SCEN"), [nl |-> NL, nf |-> 2, gd |-> gd, mass |-> M0, steps |-> hist])
=============================================================================
