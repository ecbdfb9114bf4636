---------------------------- MODULE MC_Transport ----------------------------
(* A chain of cells, one fraction, implicit steps; wind, saturated            *)
(* concentration and inflow change freely between steps.                      *)
EXTENDS Transport, FiniteSets, TLC
CONSTANTS N, MaxSteps, Dump
VARIABLES C, m, in, out, last, hist

T == 1
dx == 1
Dts  == {1, 2}
Us   == {0, 2}
Cus  == {0, 2, 8}
Ins  == {0, 1}
Init == /\ C = [i \in 1..N |-> R(0)] /\ m \in [1..N -> {R(0), R(3), R(20)}]
        /\ in = R(0) /\ out = R(0) /\ hist = <<>>
        /\ last = [w |-> [i \in 1..N |-> R(0)], pk |-> [i \in 1..N |-> R(0)], Cu |-> 0]
Step(u, Cu, cin, dt) ==
    LET sol == RForce(Chain(C, m, 1, Cu, u, dx, T, dt, cin))
    IN /\ C' = [i \in 1..N |-> sol[i].C]
       /\ m' = RForce([i \in 1..N |-> m[i] -- sol[i].pk])
       /\ in' = in ++ (dt ** (u ** cin)) /\ out' = out ++ (dt ** (u ** sol[N].C))
       /\ last' = [w |-> [i \in 1..N |-> sol[i].w], pk |-> [i \in 1..N |-> sol[i].pk], Cu |-> Cu]
       /\ hist' = Append(hist, [u |-> u, Cu |-> Cu, cin |-> cin, dt |-> dt])
Next == Len(hist) < MaxSteps /\ \E u \in Us, Cu \in Cus, cin \in Ins, dt \in Dts : Step(u, Cu, cin, dt)
vars == <<C, m, in, out, last, hist>>
Spec == Init /\ [][Next]_vars
View == <<C, m, last, Len(hist)>>

NonNegative == \A i \in 1..N : C[i] \succeq 0 /\ m[i] \succeq "-1e-9"
WeightsOK   == \A i \in 1..N : last.w[i] \succeq 0 /\ last.w[i] \preceq "1.000000001"
\* sediment in the air and in the bed changes by what crosses the boundaries
Total(x) == RSum(x)
Budget == [][ RClose((Total(C') ++ Total(m')) -- (Total(C) ++ Total(m)),
                     (in' -- in) -- (out' -- out), "1e-9") ]_vars
Bounded == [][ \A i \in 1..N : last'.pk[i] \preceq (m[i] ++ "1e-9") ]_vars
\* no cell is more than saturated if it was not and what blows in is not
Saturated == [][ (last'.Cu # 0 /\ (\A i \in 1..N : C[i] \preceq last'.Cu) /\ hist'[Len(hist')].cin <= last'.Cu)
                 => \A i \in 1..N : C'[i] \preceq (last'.Cu ++ "1e-9") ]_vars
DumpIt == (Dump /\ Len(hist) = MaxSteps) => JAppend(JEnv("SCEN"), [steps |-> hist])
=============================================================================
