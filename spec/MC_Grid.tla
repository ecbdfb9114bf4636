------------------------------- MODULE MC_Grid -------------------------------
(* A grid with wind vectors is turned to the horizontal and back while time   *)
(* steps run; skipped steps must leave it as it was.                          *)
EXTENDS Grid, TLC
CONSTANTS Angles, Sizes, MaxSteps
VARIABLES th, dx, dy, o, v, aligned, n
vars == <<th, dx, dy, o, v, aligned, n>>
E0 == RCos((th ** Pi) // 180)
E1 == RSin((th ** Pi) // 180)
S == <<E0 ** dx, E1 ** dx>>
Nn == <<RNeg(E1 ** dy), E0 ** dy>>
Init == th \in Angles /\ dx \in Sizes /\ dy \in Sizes /\ o = <<R(0), R(0)>> /\ v = <<R(3), R(1)>> /\ aligned = FALSE /\ n = 0
Align == ~aligned /\ v' = RForce(Turn(v, th, <<0, 0>>)) /\ aligned' = TRUE
Back == aligned /\ v' = RForce(Turn(v, RNeg(th), <<0, 0>>)) /\ aligned' = FALSE
Next == n < MaxSteps /\ n' = n + 1 /\ UNCHANGED <<th, dx, dy, o>> /\ (Align \/ Back)
Spec == Init /\ [][Next]_vars
Metric == Spacing(o, S) \succ 0 /\ RClose(Spacing(o, S), dx, "1e-12") /\ RClose(Spacing(o, Nn), dy, "1e-12")
Orient == Aligns(th, o, S)
Length == RClose(Norm(v), RSqrt(10), "1e-12")
Restored == ~aligned => RClose(v[1], 3, "1e-12") /\ RClose(v[2], 1, "1e-12")
\* components in the aligned grid are the projections on the axes of the grid
Project == aligned => RClose(v[1] ** dx, (S[1] ** 3) ++ S[2], "1e-12") /\ RClose(v[2] ** dy, (Nn[1] ** 3) ++ Nn[2], "1e-12")
=============================================================================
