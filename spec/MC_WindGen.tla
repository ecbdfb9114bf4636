----------------------------- MODULE MC_WindGen -----------------------------
(* All chains over a lattice of cumulative rows and random numbers.           *)
EXTENDS WindGen, TLC
CONSTANTS N, Max, Steps, Res
VARIABLES cum, state, u, hist
vars == <<cum, state, u, hist>>
g == [n |-> N, max |-> Max, dt |-> 60, mean |-> 9, shape |-> 2, scale |-> 2]
Grid == {R(k) // Res : k \in 0..(Res - 1)}
Rows == {f \in [1..N -> {R(k) // Res : k \in 0..Res}] : REq(f[N], 1) /\ \A j \in 1..(N-1) : f[j] \preceq f[j+1]}
Init == cum \in [1..N -> Rows] /\ state = 1 /\ u = R(0) /\ hist = <<>>
Draw == Len(hist) < Steps /\ \E r1, r2 \in Grid : \E j \in {NextClass(cum, state, r1)} :
          state' = j /\ u' = RForce(Speed(g, j, r2)) /\ hist' = Append(hist, j) /\ UNCHANGED cum
Next == Draw
Spec == Init /\ [][Next]_vars
InRange == state \in 1..N /\ u \succeq 0 /\ u \prec Max
InClass == hist # <<>> => u \succeq (R(state - 1) ** Bin(g)) /\ u \prec (R(state) ** Bin(g))
\* classes that cannot be reached are not visited
Possible == \A k \in 1..Len(hist) : LET from == IF k = 1 THEN 1 ELSE hist[k-1] IN Row(cum, from)[hist[k]] \succ 0
\* every random number chooses exactly one class, with the probability of the class
Exact == hist = <<>> => \A k, j \in 1..N : RClose(R(Cardinality({r \in Grid : NextClass(cum, k, r) = j})) // Res, Row(cum, k)[j], "1e-12")
Distribution == hist = <<>> => LET w == Weibull(g) IN RClose(RSum(w), 1, "1e-12") /\ \A j \in 1..N : w[j] \succ 0
Lengths == hist = <<>> => \A d \in {1, 59, 60, 61, 119, 120, 3600} : LET l == Length(g, d) IN (R(l - 1) ** 60) \succeq d /\ (R(l - 2) ** 60) \prec d
=============================================================================
