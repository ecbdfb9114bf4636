---------------------------- MODULE MC_Symmetry ----------------------------
(* A case and its image under every composition of maps, in lockstep.         *)
EXTENDS Symmetry, FiniteSets, TLC
CONSTANTS Design, MaxMaps, MaxSteps, Dump
VARIABLES maps, case, base, other, n, watch

Case(w, t0, full) == [ts |-> <<R(0), R(3600), R(7200), R(14400)>>, us |-> <<R(8), R(w), R(6), R(12)>>, ds |-> <<R(280), R(280), R(300), R(300)>>, conv |-> "nautical",
                rows |-> 1, cols |-> 4, sizes |-> <<R(3), R(5)>>, dist |-> <<R("0.6"), R("0.4")>>, full |-> R(full), t0 |-> R(t0), watch |-> FALSE]
Sequences == {<<p>> : p \in Maps} \cup (IF MaxMaps < 2 THEN {} ELSE {<<p, q>> : p, q \in Maps})
Looks == {"get", "statistics", "print", "dump", "names", "nothing"}
\* descriptions of one case: as it is and mapped
Begin == /\ maps \in {ps \in Sequences : Composable(ps)}
         /\ \E w \in {0, 14}, t0 \in {0, 600}, full \in (IF Dump THEN {5} ELSE {1, 5}) : case = Case(w, t0, full)
         /\ base = Start(case) /\ other = Start(ApplyAll(maps, case)) /\ n = 0 /\ watch = <<>>
Init == Begin
Step == /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED <<maps, case>>
        /\ IF Dump THEN UNCHANGED <<base, other>> ELSE base' = RForce(Move(Design, case, base)) /\ other' = RForce(Move(Design, ApplyAll(maps, case), other))
        /\ IF Dump THEN \E k \in Looks : watch' = Append(watch, k) ELSE UNCHANGED watch
Next == Step
vars == <<maps, case, base, other, n, watch>>
Spec == Init /\ [][Next]_vars

\* the order of the fractions is free if nothing runs out
Same == LET e == ImageAll(maps, base) IN
    /\ RClose(other.t, e.t, "1e-12") /\ RSeqClose(other.C, e.C, "1e-9") /\ RSeqClose(other.m, e.m, "1e-9")
Equivalent == (KeepsOrder(maps) \/ ~base.short) => Same
OrderIsFree == Same
NeverShort == ~base.short
NonNegative == \A x \in {base, other} : RMinSeq(RFlat(x.C)) \succeq 0 /\ RMinSeq(RFlat(x.m)) \succeq "-1e-9"
\* the comparison means something: sediment is moving in the end
Moves == (~Dump /\ n = MaxSteps) => RSum(RFlat(base.C)) \succ 0
Solvers == <<"trunk", "pieter", "steadystate", "steadystatepieter">>
Schemes == <<"euler_backward", "crank_nicolson", "euler_forward">>
DumpIt == (Dump /\ n = MaxSteps) => JAppend(JEnv("SCEN"), [maps |-> maps, watch |-> watch, solver |-> RandomElement(1..4), scheme |-> RandomElement(1..3)])
=============================================================================
