------------------------------ MODULE MC_Shear ------------------------------
(* The bed of a short profile rises and falls around a fence while the wind   *)
(* turns.                                                                      *)
EXTENDS Shear, FiniteSets, TLC
CONSTANTS N, Heights, Changes, Fence, MaxSteps
VARIABLES z, top, init, h, lost, forward, n
vars == <<z, top, init, h, lost, forward, n>>
I == 1..N
Init == /\ z \in [I -> {R(a) : a \in Heights}] /\ forward \in BOOLEAN /\ n = 0 /\ lost = FALSE
        /\ init \in {R(f) : f \in Fence} /\ top = RForce(z[2] ++ init) /\ h = init
FenceStep == LET zz == z[2] IN /\ h' = FenceUp(top, zz, init) /\ init' = (IF FenceLost(top, zz, init) THEN R(0) ELSE init) /\ lost' = (lost \/ FenceLost(top, zz, init))
Blow == n < MaxSteps /\ n' = n + 1 /\ FenceStep /\ UNCHANGED <<z, top, forward>>
Change == n < MaxSteps /\ \E i \in I : \E c \in Changes : z' = [z EXCEPT ![i] = RForce(@ ++ c)] /\ n' = n + 1 /\ UNCHANGED <<top, init, h, lost, forward>>
WindTurns == n < MaxSteps /\ forward' = ~forward /\ n' = n + 1 /\ UNCHANGED <<z, top, init, h, lost>>
Next == Blow \/ Change \/ WindTurns
Spec == Init /\ [][Next]_vars
A == Profile(z, 1, forward)
Up(c) == [i \in I |-> z[i] ++ c]
X == [i \in I |-> R(i)]
H == [i \in I |-> IF i = 2 THEN h ELSE R(0)]
L(i, f) == Lee(X, H, i, "0.48", "0.32", f)
NotAgainst == \A i \in I : A[i] \succeq "0.1"
Flat == (\A i \in I : REq(z[i], z[1])) => \A i \in I : RClose(A[i], 1, "1e-12")
Datum == LET B == Profile(Up(7), 1, forward) IN \A i \in I : RClose(A[i], B[i], "1e-12")
Mirrored == LET B == Profile(Rev(z), 1, ~forward) IN \A i \in I : RClose(A[i], B[N + 1 - i], "1e-12")
NoBubbleOnFlats == (\A i \in I : REq(z[i], z[1])) => ~Stalls(z, 1, 20, forward)
FenceLife == (lost /\ n > 0) => (REq(init, 0) )
FenceGone == [][lost => REq(h', 0) \/ h' = h]_vars
FenceRange == REq(h, 0) \/ REq(h, init) \/ (h \succeq "0.1" /\ h \preceq "1.5")
LeeOnly == \A i \in I : /\ L(i, forward) \succeq 0 /\ L(i, forward) \preceq 1
                        /\ (forward /\ i < 2) \/ (~forward /\ i > 2) => REq(L(i, forward), 0)
LeeRecovers == (h \succ 0) => \A i \in 2..(N-1) : L(i+1, TRUE) \preceq L(i, TRUE)
=============================================================================
