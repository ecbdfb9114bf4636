------------------------------ MODULE Transport ------------------------------
(* Advection of one grain fraction over the grid and its exchange with the    *)
(* bed, as solved once per time step.                                         *)
(*                                                                            *)
(* Grids are g[j][i], j along the shore (1..NJ), i across (1..NI).            *)
(* State: C concentration in the air, m mass of the fraction in the top layer *)
(* w weight of the fraction.  A step takes C0 to C with velocities us, un,    *)
(* saturated concentration Cu (Cuf in fully bed-driven conditions), step dt   *)
(* and implicitness a (0 explicit, 1 implicit).                               *)
EXTENDS Num, Integers, Sequences

NI(g) == Len(g[1])
NJ(g) == Len(g)
\* lateral neighbours, circular
Up(g, j)   == IF j = NJ(g) THEN 1 ELSE j + 1
Down(g, j) == IF j = 1 THEN NJ(g) ELSE j - 1

(* --------------------------------------------------- divergence of the flux *)
\* cell-based upwind: the flux through a cell face is that of the upwind cell
CellDiv(C, us, un, ds, dn, j, i) ==
    LET s  == us[j][i]   n == un[j][i]
        out == ((RAbs(s) ** C[j][i]) // ds[j][i]) ++ ((RAbs(n) ** C[j][i]) // dn)
        ins == IF ~(s \prec 0) THEN us[j][i-1] ** C[j][i-1] ELSE RNeg(us[j][i+1]) ** C[j][i+1]
        inn == IF ~(n \prec 0) THEN un[Down(C, j)][i] ** C[Down(C, j)][i]
               ELSE RNeg(un[Up(C, j)][i]) ** C[Up(C, j)][i]
    IN out -- (ins // ds[j][i]) -- (inn // dn)
\* face-based upwind: velocities are averaged to the faces
Face(u1, u2, c1, c2) == LET u == "0.5" ** (u1 ++ u2) IN IF ~(u \prec 0) THEN u ** c1 ELSE u ** c2
FaceDivS(C, us, ds, j, i) ==
    (Face(us[j][i], us[j][i+1], C[j][i], C[j][i+1]) -- Face(us[j][i-1], us[j][i], C[j][i-1], C[j][i])) // ds[j][i]
FaceDivN(C, un, dn, j, i) ==
    LET a == Up(C, j)  b == Down(C, j) IN
    (Face(un[j][i], un[a][i], C[j][i], C[a][i]) -- Face(un[b][i], un[j][i], C[b][i], C[j][i])) // dn
\* closed boundary columns with a prescribed inflow (face-based family)
FaceDivS0(C, us, ds, j, inflow) ==
    (Face(us[j][1], us[j][2], C[j][1], C[j][2]) -- inflow) // ds[j][1]
FaceDivSN(C, us, ds, j, inflow) ==
    LET n == NI(C) IN
    RNeg(Face(us[j][n-1], us[j][n], C[j][n-1], C[j][n]) ++ inflow) // ds[j][n]
\* closed boundary rows with a prescribed flux along the shore
FaceDivN0(C, un, dn, i, inflow) ==
    (Face(un[1][i], un[2][i], C[1][i], C[2][i]) -- inflow) // dn
FaceDivNN(C, un, dn, i, outflow) ==
    LET n == NJ(C) IN
    (outflow -- Face(un[n-1][i], un[n][i], C[n-1][i], C[n][i])) // dn

Div(family, C, us, un, ds, dn, j, i) ==
    IF family = "cell" THEN CellDiv(C, us, un, ds, dn, j, i)
    ELSE FaceDivS(C, us, ds, j, i) ++ FaceDivN(C, un, dn, j, i)

(* ------------------------------------------------------- bed interaction    *)
\* degree of saturation: all fractions together, from the previous concentration
Saturation(C0, Cu) == RSum([f \in 1..Len(Cu) |-> IF Cu[f] \succ 0 THEN C0[f] // Cu[f] ELSE R(0)])
Entrain(w, Cu, Cuf, S) == w ** ((Cuf ** (R(1) -- S)) ++ (Cu ** S))
Source(w, Cu, Cuf, S, C, T) == (Entrain(w, Cu, Cuf, S) -- C) // T
PotentialPickup(w, Cu, C, T, dt) == ((w ** Cu) -- C) ** (dt // T)
Pickup(w, Cu, C, T, dt, m) == RMin(PotentialPickup(w, Cu, C, T, dt), m)
\* weight of a fraction that would erode more than is there
LimitWeight(w, Cu, C, T, dt, m) ==
    IF PotentialPickup(w, Cu, C, T, dt) \succ m THEN ((m ** (T // dt)) ++ C) // Cu ELSE w

(* --------------------------------------------------- weights of fractions   *)
Norm(x) == LET t == RSum(x) IN IF REq(t, 0) THEN [f \in 1..Len(x) |-> R(0)] ELSE [f \in 1..Len(x) |-> x[f] // t]
AirWeights(Ct, Cu) == [f \in 1..Len(Ct) |-> IF REq(Cu[f], 0) THEN R(0) ELSE Ct[f] // Cu[f]]
InitialWeights(bi, Ct, Cu, top) ==
    LET wa == AirWeights(Ct, Cu)
        wb == Norm(top)
        r  == R(1) -- RMin(1, (R(1) -- bi) ** RSum(wa))
    IN Norm([f \in 1..Len(Ct) |-> ((R(1) -- bi) ** wa[f]) ++ (r ** wb[f])])
\* fractions < ix keep their weight, the others share the remainder
Renormalize(w, ix) ==
    LET n == Len(w)
        f == RSum([k \in 1..(ix-1) |-> w[k]])
        t == RSum([k \in 1..(n-ix+1) |-> w[ix+k-1]])
        q == [k \in 1..n |-> IF k < ix THEN R(w[k]) ELSE IF REq(t, 0) THEN R(0) ELSE (w[k] // t) ** (R(1) -- f)]
        s == RSum(q)
    IN IF REq(s, 0) THEN [k \in 1..n |-> R(1) // n] ELSE [k \in 1..n |-> q[k] // s]

(* ------------------------------ a chain of cells with wind from one side    *)
(* (the solution in closed form, used for the exhaustive model)               *)
RECURSIVE Chain(_, _, _, _, _, _, _, _, _)
\* implicit solution for cells i..n; cin: concentration upwind of cell i; a
\* cell that would erode more than it holds gives exactly what it holds
Chain(C0, m, w, Cu, u, dx, T, dt, cin) ==
    IF C0 = <<>> THEN <<>>
    ELSE LET a == (dt ** u) // dx  b == dt // T
             free == (C0[1] ++ (a ** cin) ++ (b ** (w ** Cu))) // (R(1) ++ a ++ b)
             lim  == PotentialPickup(w, Cu, free, T, dt) \succ m[1] /\ (w ** Cu) \succ 0
             c    == R(IF lim THEN (C0[1] ++ (a ** cin) ++ m[1]) // (R(1) ++ a) ELSE free)
             wl   == R(IF lim THEN LimitWeight(w, Cu, c, T, dt, m[1]) ELSE w)
         IN <<[C |-> c, w |-> wl, pk |-> Pickup(wl, Cu, c, T, dt, m[1])]>>
              \o Chain(Tail(C0), Tail(m), w, Cu, u, dx, T, dt, c)
=============================================================================
