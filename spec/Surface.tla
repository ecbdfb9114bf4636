------------------------------- MODULE Surface -------------------------------
(* What happens to the surface of the bed besides transport and avalanching:  *)
(* the non-erodible layer, mixing by waves, the reset of wet beds, the moving *)
(* average of bed level changes and dune erosion (Palmsten and Holman 2012).  *)
EXTENDS Num, Integers, Sequences

(* ------------------------------------------------------ non-erodible layer *)
Exposure == "0.01"                       \* cover below which the layer counts as exposed
Exposed(z, ne) == z \preceq (ne ++ Exposure)

(* --------------------------------------------------- mixing of the top layers *)
\* m[l][f]: mass per layer and fraction of one cell; thl[l]: layer thickness;
\* dod: depth of disturbance
Cum(thl, l) == RSum(SubSeq(thl, 1, l))
Disturbed(thl, dod, l) == dod \succ 0 /\ (l = 1 \/ Cum(thl, l) \preceq dod)
Mix(m, thl, dod) ==
    LET nl == Len(m)  nf == Len(m[1])
        S == {l \in 1..nl : Disturbed(thl, dod, l)}
        K == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A l \in S : l <= k       \* the top K layers
        share == IF dod \succ 0 THEN RMin(1, RSum(thl) // dod) ELSE R(1)
        mean(f) == RSum([l \in 1..K |-> m[l][f]]) // K
    IN [l \in 1..nl |-> [f \in 1..nf |->
          IF l > K THEN R(m[l][f]) ELSE (mean(f) ** share) ++ (m[l][f] ** (R(1) -- share))]]
ColumnMass(m, f) == RSum([l \in 1..Len(m) |-> m[l][f]])

(* ------------------------------------------------------------ wet bed reset *)
Wet(z, zs) == zs \succ (z ++ "0.01")
WetReset(z, z0, zs, dt, T) == IF Wet(z, zs) THEN z ++ ((z0 -- z) ** RMin(1, dt // T)) ELSE R(z)

(* ------------------------------------------------- average bed level change *)
Year == "31557600"
Yearly(dz, span) == (dz ** Year) // span
Average(avg, dz, span, period) ==
    LET n == RMin(1, span // period) IN (n ** Yearly(dz, span)) ++ ((R(1) -- n) ** avg)

(* -------------------------------------------------------------- dune erosion *)
\* one row: x, z; toe elevation, beach slope, impact coefficient; set-up, swash
\* deviation and runup of the row; tide, wave period and time step
Twl(R2, tide) == (R2 ** "1.26") ++ tide
NormCdf(v, mu, sd) == R("0.5") ** (R(1) ++ RErf((v -- mu) // (sd ** RSqrt(2))))
Collides(d) == Twl(d.R, d.tide) \succ d.toe /\ d.sigma \succ 0 /\ d.Tp \succ 0
Impact(d) == LET h == Twl(d.R, d.tide) -- d.toe IN
    (("4" ** d.Cs) ** (h ** h)) ** (((R(1) -- NormCdf(d.toe, d.eta ++ d.tide, d.sigma)) ** d.dt) // d.Tp)
ArgMin(s) == CHOOSE k \in 1..Len(s) : \A j \in 1..Len(s) : s[k] \preceq s[j] /\ (REq(s[j], s[k]) => k <= j)
ToeCell(d, z) == ArgMin([i \in 1..Len(z) |-> RAbs(z[i] -- d.toe)])
Trajectory(d, z, i) == LET k == ToeCell(d, z) IN
    RMin(z[i], (("0.54" ** d.slope) ** (d.x[i] -- d.x[k])) ++ d.toe)
\* volumes between the bed and the trajectory, from the toe
Volumes(d, z) ==
    LET k == ToeCell(d, z)
        dx == RAbs(d.x[2] -- d.x[1])
        v == [i \in 1..(Len(z)-k+1) |-> dx ** (z[k+i-1] -- Trajectory(d, z, k+i-1))]
    IN RForce([i \in 1..Len(v) |-> RSum(SubSeq(v, 1, i)) -- v[1]])
\* the number of cells the impact removes
Retreat(d, z) == LET V == Volumes(d, z)  imp == R(Impact(d)) IN ArgMin([i \in 1..Len(V) |-> RAbs(V[i] -- imp)]) - 1
Eroded(d, z, n) == LET k == ToeCell(d, z) IN
    [i \in 1..Len(z) |-> IF i >= k /\ i < k + n THEN Trajectory(d, z, i) ELSE R(z[i])]
DuneErosion(d, z) == IF Collides(d) THEN Eroded(d, z, Retreat(d, z)) ELSE z
=============================================================================
