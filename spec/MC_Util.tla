------------------------------- MODULE MC_Util -------------------------------
(* Points that are rotated and values that are masked again and again; series *)
(* and mixtures over small lattices.                                          *)
EXTENDS Util, TLC
CONSTANTS Depth, NX, NM
VARIABLES pts, total, turns, val, factor, shift, x, mix
vars == <<pts, total, turns, val, factor, shift, x, mix>>

P0 == << <<0, 0>>, <<3, 1>>, <<-2, 5>> >>
O == <<1, 2>>
Angles == {-90, 30, 45, 180}
Masks == << <<1, 0>>, <<0, 3>>, <<"0.5", 1>>, <<2, "-0.25">> >>
XP == << <<0, 5>>, <<-3, 0, 4, 5>>, <<10, 11, 20>> >>
FP == << <<2, -1>>, <<0, 7, 7, -2>>, <<1, 3, 2>> >>
D == <<"0.1", "0.2", "0.5">>
Mixes == {m \in [1..3 -> 0..NM] : m[1] + m[2] + m[3] > 0}

Init0 == /\ pts = P0 /\ total = 0 /\ turns = 0 /\ val = R(4) /\ factor = R(1) /\ shift = R(0) /\ x = -NX /\ mix \in Mixes
Rotate == \E a \in Angles : /\ pts' = RForce([k \in 1..3 |-> Turn(pts[k], a, O)]) /\ total' = total + a /\ turns' = turns + 1 /\ UNCHANGED <<val, factor, shift, x, mix>>
Mask == \E n \in 1..4 : LET m == Masks[n] IN /\ val' = R(Masked(val, m)) /\ factor' = R(factor ** m[1]) /\ shift' = R((shift ** m[1]) ++ m[2]) /\ turns' = turns + 1 /\ UNCHANGED <<pts, total, x, mix>>
Tick == x < NX /\ turns = 0 /\ x' = x + 1 /\ UNCHANGED <<pts, total, turns, val, factor, shift, mix>>
Next == (turns < Depth /\ x = -NX /\ mix = <<1, 1, 1>> /\ (Rotate \/ Mask)) \/ Tick
Spec == Init0 /\ [][Next]_vars

\* rotations add up, keep distances and the origin
RotateAdds == \A k \in 1..3 : RSeqClose(pts[k], RForce(Turn(P0[k], total, O)), "1e-9")
RotateKeeps == \A j, k \in 1..3 : RClose(Dist2(pts[j], pts[k]), Dist2(P0[j], P0[k]), "1e-9")
RotateCentre == \A a \in Angles : RSeqClose(RForce(Turn(O, a, O)), O, "1e-12")
\* masks after each other are one mask
MasksCompose == RClose(val, (R(4) ** factor) ++ shift, "1e-12")
\* a series repeats, goes through its records, stays within them and is continuous between them
h(v) == R(v) // 2
SeriesRepeats == \A n \in 1..3 : RClose(Circular(h(x), XP[n], FP[n]), Circular(h(x) ++ Period(XP[n]), XP[n], FP[n]), "1e-9")
SeriesRecords == \A n \in 1..3 : \A k \in 1..Len(XP[n]) : RClose(Circular(XP[n][k], XP[n], FP[n]), FP[n][k], "1e-12")
SeriesWithin == \A n \in 1..3 : \E v \in {R(Circular(h(x), XP[n], FP[n]))} : v \succeq RMinSeq(FP[n]) /\ v \preceq RMaxSeq(FP[n])
SeriesInside == \A n \in 1..3 : (h(x) \succeq XP[n][1] /\ h(x) \preceq XP[n][Len(XP[n])]) => RClose(Circular(h(x), XP[n], FP[n]), Linear(h(x), XP[n], FP[n]), "1e-12")
\* distributions
Sums == RClose(RSum(Normal(mix, 0)), 1, "1e-12") /\ RSum(Normal(<<0, 0>>, "0.25")) \preceq "0.5"
Sizes == /\ \A p \in 0..9 : Size(D, mix, 10 * p) \preceq (Size(D, mix, 10 * (p + 1)) ++ "1e-12")
         /\ (mix[3] > 0 => RClose(Size(D, mix, 100), "0.5", "1e-12")) /\ Mean(D, mix) \succeq "0.0999999" /\ Mean(D, mix) \preceq "0.5000001"
         /\ ((mix[1] = 0 /\ mix[3] = 0) => RClose(Mean(D, mix), "0.2", "1e-12"))
=============================================================================
