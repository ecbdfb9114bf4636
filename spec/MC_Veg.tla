-------------------------------- MODULE MC_Veg --------------------------------
(* A row of cells in which plants germinate, spread, grow, get buried and     *)
(* drown in any order.                                                        *)
EXTENDS Veg, FiniteSets, TLC
CONSTANTS NI, Changes, Waters, Methods, MaxSteps
VARIABLES c, method, wet, n
vars == <<c, method, wet, n>>

Q(m) == [V |-> R(5), hmax |-> R(1), opt |-> R("0.5"), gamma |-> R(1), tveg |-> R(30), vgam |-> R(1), rmax |-> R("0.5"), method |-> m, tide |-> TRUE, zmin |-> R(0)]
Span == "2629800"                                   \* one month
Z(i) == "0.5" ** (i - 1)                            \* bed level: the first cell lies at the lowest elevation
Cell(h, m, i) == [h |-> R(h), r |-> R(CoverOf(h, 1)), germ |-> IF h \succ 0 THEN R(1) ELSE R(0), lat |-> R(0), dz |-> R(0), z |-> R(Z(i)), zs |-> R(Z(i))]
Init == /\ method \in Methods /\ n = 0 /\ wet = R(0)
        /\ \E h \in [1..NI -> {"0", "0.3"}] : c = RForce([i \in 1..NI |-> Cell(h[i], method, i)])
Row == <<[i \in 1..NI |-> c[i].r]>>
\* germination only where the bed does not fall, expansion only next to higher cover
Step == \E dz \in Changes : \E w \in Waters :
        \E new \in SUBSET {i \in 1..NI : dz \succeq 0} : \E spread \in SUBSET {i \in 1..NI : More(Row, 1, i) > 0} :
          /\ Cardinality(new) + Cardinality(spread) <= 1
          /\ wet' = R(w)
          /\ c' = RForce([i \in 1..NI |->
               LET k == [c[i] EXCEPT !.germ = IF c[i].r \succ 0 \/ i \in new THEN R(1) ELSE R(0),
                                     !.lat = IF i \in spread THEN R(1) ELSE c[i].lat, !.dz = R(dz), !.zs = R(RMax(w, Z(i)))]
                   g == Grow(Q(method), k, Span)
               IN [k EXCEPT !.h = R(g.h), !.r = R(g.r), !.germ = R(g.germ), !.lat = R(g.lat)]])
Next == n < MaxSteps /\ n' = n + 1 /\ UNCHANGED method /\ Step
Spec == Init /\ [][Next]_vars

Bounds == \A i \in 1..NI : c[i].h \succeq 0 /\ c[i].h \preceq 1 /\ c[i].r \succeq 0 /\ c[i].r \preceq 1 /\ RClose(c[i].r, CoverOf(c[i].h, 1), "1e-9")
Density == (method = "duranmoore14" /\ n > 0) => \A i \in 1..NI : c[i].r \preceq ("0.5" ++ "1e-9")
Drown == n > 0 => \A i \in 1..NI : (wet \succ (Z(i) ++ "0.01")) => REq(c[i].h, 0) /\ REq(c[i].r, 0) /\ REq(c[i].germ, 0)
\* nothing grows from nothing
NeedsRoots == [][\A i \in 1..NI : (REq(c[i].r, 0) /\ c'[i].r \succ 0) => ~REq(c'[i].germ, 0) \/ ~REq(c'[i].lat, 0)]_vars
\* more burial, less growth
Burial1 == \A i \in 1..NI : \A a \in {"0", "1"} : \A b \in {"2", "7"} :
    GrowthRate(Q("orig"), [c[i] EXCEPT !.dz = R(b)]) \preceq GrowthRate(Q("orig"), [c[i] EXCEPT !.dz = R(a)])
Shelter == LET f == Factor(Row, 16, "0.8") IN \A i \in 1..NI : f[1][i] \succ 0 /\ f[1][i] \preceq ("1" ++ "1e-12") /\
    ((\A j \in 1..NI : REq(Row[1][j], 0)) => RClose(f[1][i], 1, "1e-12"))
\* the smoothing keeps the sum of the factors
SumKept == RClose(RSum(Factor(Row, 16, "0.8")[1]), RSum([i \in 1..NI |-> Raupach(Row[1][i], 16)]), "1e-9")
OkinBounds == \A e \in BOOLEAN : \A k \in 1..NI : LET x == [i \in 1..NI |-> R(i)]  h == [i \in 1..NI |-> c[i].h]  r == Okin(x, h, e, "0.48", "0.32", k) IN
    /\ r \succeq 0 /\ r \preceq 1
    /\ (\A i \in 1..NI : (IF e THEN i <= k ELSE i >= k) => REq(h[i], 0)) => REq(r, 0)
    /\ h[k] \succ 0 => r \succeq ("0.68" -- "1e-9")
Chances == \A p \in {"0", "0.3", "1"} : LET q == PerStep(p, Span) IN q \succeq 0 /\ q \preceq 1 /\ (REq(p, 1) => REq(q, 1)) /\
    RClose(RPow(R(1) -- q, VYear // Span), R(1) -- p, "1e-9")
=============================================================================
