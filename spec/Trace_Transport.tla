--------------------------- MODULE Trace_Transport ---------------------------
(* One event per solution of the transport equation in the real code, per     *)
(* evaluation of the fraction weights, and per complete time step.            *)
EXTENDS Transport, TraceLib
VARIABLE i

Cells(g) == {<<j, k>> : j \in 1..NJ(g), k \in 1..NI(g)}
Fam(ev)  == IF ev.solver \in {"trunk", "steadystate"} THEN "cell" ELSE "face"
Steady(ev) == ev.solver \in {"steadystate", "steadystatepieter"}
F(ev)    == 1..ev.nf
FSeq(g, ev, j, k) == [f \in F(ev) |-> g[f][j][k]]
S(ev, j, k) == IF Fam(ev) = "cell" THEN Saturation(FSeq(ev.C0, ev, j, k), FSeq(ev.Cu, ev, j, k)) ELSE R(1)
Cfl(ev) == RMaxSeq([j \in 1..NJ(ev.us[1]) |-> RMaxSeq([k \in 1..NI(ev.us[1]) |->
              RMaxSeq([f \in F(ev) |-> ev.dt ** ((RAbs(ev.us[f][j][k]) // ev.ds[j][k]) ++ (RAbs(ev.un[f][j][k]) // ev.dn))])])])

\* weight implied by the reported pickup, and whether it is the reported weight
Implied(ev, f, j, k) == ((ev.pk[f][j][k] ** (ev.T // ev.dt)) ++ ev.C[f][j][k]) // ev.Cu[f][j][k]
PkTol(ev) == "3e-6" ++ (R(3) ** ev.eps)
WMatches(ev, f, j, k) ==
    LET pot == PotentialPickup(ev.w[f][j][k], ev.Cu[f][j][k], ev.C[f][j][k], ev.T, ev.dt)
    IN RNear(RMin(pot, ev.m[f][j][k] ++ ev.eps), RMin(ev.pk[f][j][k], ev.m[f][j][k] ++ ev.eps), "1e-7", ev.eps ** 2 ++ "1e-12")
W(ev, f, j, k) == IF REq(ev.Cu[f][j][k], 0) THEN ev.w[f][j][k] ELSE Implied(ev, f, j, k)
\* if the last fraction has run out, its weight is spread over the others afterwards
Redistributed(ev, f, j, k) == f < ev.nf /\ ev.w[ev.nf][j][k] \preceq "1e-9"

\* terms of the equation; everything multiplied by dt
DT(ev) == IF Steady(ev) THEN R(1) ELSE ev.dt
New(ev, f, j, k) == Div(Fam(ev), ev.C[f], ev.us[f], ev.un[f], ev.ds, ev.dn, j, k)
                    -- Source(W(ev, f, j, k), ev.Cu[f][j][k], IF Fam(ev) = "cell" THEN ev.Cuf[f][j][k] ELSE ev.Cu[f][j][k], S(ev, j, k), ev.C[f][j][k], ev.T)
Old(ev, f, j, k) == Div(Fam(ev), ev.C0[f], ev.us[f], ev.un[f], ev.ds, ev.dn, j, k)
                    -- Source(ev.lw[f][j][k], ev.lCu[f][j][k], IF Fam(ev) = "cell" THEN ev.lCuf[f][j][k] ELSE ev.lCu[f][j][k], S(ev, j, k), ev.C0[f][j][k], ev.T)
Residual(ev, f, j, k) ==
    IF Steady(ev) THEN New(ev, f, j, k)
    ELSE (ev.C[f][j][k] -- ev.C0[f][j][k])
         ++ (ev.dt ** ((ev.alpha ** New(ev, f, j, k)) ++ ((R(1) -- ev.alpha) ** Old(ev, f, j, k))))
ResTol(ev, cfl) == ((ev.eps ** 4) ++ (IF Steady(ev) THEN (ev.eps ** 4) // ev.dt ELSE R(0)) ++ ("1e-9" ** (R(1) ++ (ev.dt // ev.T)))) ** (R(1) ++ cfl)

\* cells of the face-based solvers that keep their concentration
Fixed(ev, f, j, k) == \/ k = 1 /\ ev.bo = "constant"
                      \/ k = NI(ev.C[f]) /\ ev.bl = "constant"
                      \/ ev.lat = "constant" /\ NJ(ev.C[f]) > 1 /\ j \in {1, NJ(ev.C[f])}

\* concentrations cut off at zero change the solution
Untouched(ev, f) ==
    LET n == NI(ev.C[f]) IN
    \A c \in Cells(ev.C[f]) : \/ ev.C[f][c[1]][c[2]] \succ 0
                              \/ Fam(ev) = "face" /\ Fixed(ev, f, c[1], c[2]) /\ REq(ev.C0[f][c[1]][c[2]], 0)
                              \/ Fam(ev) = "cell" /\ c[2] = 1 /\ ev.bo \in {"constant", "flux", "noflux"}
                              \/ Fam(ev) = "cell" /\ c[2] = n /\ ev.bl \in {"constant", "flux", "noflux"}
\* the face-based solvers limit the pickup before solving as well
Unlimited(ev, f, j, k) ==
    Fam(ev) = "face" =>
        LET U == IF Steady(ev) THEN ev.w[f][j][k] ** ev.Cu[f][j][k]
                 ELSE (ev.alpha ** (W(ev, f, j, k) ** ev.Cu[f][j][k])) ++ ((R(1) -- ev.alpha) ** (ev.lw[f][j][k] ** ev.lCu[f][j][k]))
        IN (U ** "1.01") \prec ev.m[f][j][k]
SolvedCells(ev, f) == {c \in Cells(ev.C[f]) : /\ c[2] > 1 /\ c[2] < NI(ev.C[f])
                                               /\ (ev.lat = "circular" \/ (c[1] > 1 /\ c[1] < NJ(ev.C[f])))}
EquationHolds(ev, f, cfl) ==
    (Untouched(ev, f) /\ \A c \in Cells(ev.C[f]) : Unlimited(ev, f, c[1], c[2])) =>
        \A c \in SolvedCells(ev, f) : RAbs(Residual(ev, f, c[1], c[2])) \preceq ResTol(ev, cfl)

\* boundary columns of the cell-based solvers
Bnd(ev, f, j, bc, flux, edge, in1, in2) ==
    LET c == ev.C[f][j][edge]  c1 == ev.C[f][j][in1]  c2 == ev.C[f][j][in2]
        r == ev.ds[j][in1] // ev.ds[j][in2]
        e == CASE bc = "flux" -> flux ** ev.Cu0[f][j][edge]
               [] bc = "noflux" -> R(0)
               [] bc = "constant" -> IF REq(ev.u[f][j][edge], 0) THEN R(0) ELSE flux // ev.u[f][j][edge]
               [] bc = "uniform" -> c1
               [] bc = "gradient" -> c1 ++ (r ** (c1 -- c2))
    IN RNear(c, RMax(e, 0), "1e-7", (ev.eps ** 2) ++ "1e-10")
BoundaryHolds(ev, f) ==
    LET n == NI(ev.C[f]) IN
    (Fam(ev) = "cell" /\ Untouched(ev, f)) =>
        \A j \in {x \in 1..NJ(ev.C[f]) : ev.lat = "circular" \/ (x > 1 /\ x < NJ(ev.C[f]))} :
            /\ Bnd(ev, f, j, ev.bo, ev.oflux, 1, 2, 3)
            /\ Bnd(ev, f, j, ev.bl, ev.nflux, n, n-1, n-2)
\* all cells of the face-based solvers, with the flux that each boundary
\* condition lets through the outer faces: prescribed, none in the direction of
\* the boundary (gradient), or a concentration that stays as it is (constant)
DivS(ev, f, j, k) ==
    LET n == NI(ev.C[f]) IN
    CASE k = 1 /\ ev.bo = "gradient" -> R(0)
      [] k = n /\ ev.bl = "gradient" -> R(0)
      [] k = 1 -> FaceDivS0(ev.C[f], ev.us[f], ev.ds, j, (ev.us[f][j][1] ** ev.Cu0[f][j][1]) ** ev.oflux)
      [] k = n -> FaceDivSN(ev.C[f], ev.us[f], ev.ds, j, (ev.us[f][j][n] ** ev.Cu0[f][j][n]) ** ev.nflux)
      [] OTHER -> FaceDivS(ev.C[f], ev.us[f], ev.ds, j, k)
DivN(ev, f, j, k) ==
    LET n == NJ(ev.C[f]) IN
    CASE ev.lat = "circular" \/ n = 1 \/ (j > 1 /\ j < n) -> FaceDivN(ev.C[f], ev.un[f], ev.dn, j, k)
      [] ev.lat = "gradient" -> R(0)
      [] j = 1 -> FaceDivN0(ev.C[f], ev.un[f], ev.dn, k, (ev.un[f][1][k] ** ev.Cu0[f][1][k]) ** ev.lflux)
      [] j = n -> FaceDivNN(ev.C[f], ev.un[f], ev.dn, k, (ev.un[f][n][k] ** ev.Cu0[f][n][k]) ** ev.lflux)
FaceBoundary(ev, f, cfl) ==
    (Fam(ev) = "face" /\ (Steady(ev) \/ ev.alpha = R(1)) /\ Untouched(ev, f) /\ \A c \in Cells(ev.C[f]) : Unlimited(ev, f, c[1], c[2])) =>
        \A c \in Cells(ev.C[f]) :
            LET j == c[1]  k == c[2]
                src == Source(W(ev, f, j, k), ev.Cu[f][j][k], ev.Cu[f][j][k], R(1), ev.C[f][j][k], ev.T)
                new == (DivS(ev, f, j, k) ++ DivN(ev, f, j, k)) -- src
            IN IF Fixed(ev, f, j, k) THEN RNear(ev.C[f][j][k], ev.C0[f][j][k], "1e-9", ev.eps ** 4)
               ELSE RAbs(IF Steady(ev) THEN new ELSE (ev.C[f][j][k] -- ev.C0[f][j][k]) ++ (ev.dt ** new)) \preceq ResTol(ev, cfl)

AllCells(ev, P(_, _, _)) == \A f \in F(ev) : \A c \in Cells(ev.Cu[f]) : P(f, c[1], c[2])
JudgeSolve(ev) ==
    LET cfl == Cfl(ev)
        nonneg(f, j, k) == ev.C[f][j][k] \succeq 0
        wok(f, j, k)    == ev.w[f][j][k] \succeq "-1e-9" /\ ev.w[f][j][k] \preceq "1.000001"
        supply(f, j, k) == ev.pk[f][j][k] \preceq (ev.m[f][j][k] ++ PkTol(ev))
        pick(f, j, k)   == WMatches(ev, f, j, k) \/ Redistributed(ev, f, j, k) \/ REq(ev.Cu[f][j][k], 0)
        dep(f, j, k)    == REq(ev.Cu[f][j][k], 0) =>
                              RNear(ev.pk[f][j][k], RNeg(ev.C[f][j][k]) ** (ev.dt // ev.T), "1e-7", ev.eps ** 2)
        flux(f, j, k)   == /\ RNear(ev.qs[f][j][k], ev.C[f][j][k] ** ev.us[f][j][k], "1e-9", "1e-12")
                           /\ RNear(ev.qn[f][j][k], ev.C[f][j][k] ** ev.un[f][j][k], "1e-9", "1e-12")
    IN Clause("supply:concentration-not-negative", AllCells(ev, nonneg)) \cup
       Clause("supply:weights-between-0-and-1", AllCells(ev, wok)) \cup
       Clause("supply:weights-at-most-unity",
              \A c \in Cells(ev.Cu[1]) : RSum(FSeq(ev.w, ev, c[1], c[2])) \preceq "1.000001") \cup
       Clause("supply:pickup-within-supply", AllCells(ev, supply)) \cup
       Clause("budget:pickup-follows-weight", AllCells(ev, pick)) \cup
       Clause("budget:deposition-without-capacity", AllCells(ev, dep)) \cup
       Clause("budget:flux-is-concentration-times-velocity", AllCells(ev, flux)) \cup
       Clause("budget:equation", \A f \in F(ev) : EquationHolds(ev, f, cfl)) \cup
       Clause("budget:boundaries", \A f \in F(ev) : BoundaryHolds(ev, f) /\ FaceBoundary(ev, f, cfl))

SameW(x, y) == Len(x) = Len(y) /\ \A f \in 1..Len(x) : RNear(x[f], y[f], "1e-9", "1e-9")
JudgeWeights(ev) ==
    Clause("supply:initial-weights",
        \A c \in Cells(ev.w) : SameW(ev.w[c[1]][c[2]], InitialWeights(ev.bi, ev.Ct[c[1]][c[2]], ev.Cu[c[1]][c[2]], ev.top[c[1]][c[2]])))
JudgeRenorm(ev) ==
    Clause("supply:renormalized-weights",
        \A c \in Cells(ev.w) : SameW(ev.w[c[1]][c[2]], Renormalize(ev.w0[c[1]][c[2]], ev.ix)))
JudgeStart(ev) == Clause("supply:weights-at-most-unity",
              \A c \in Cells(ev.Cu[1]) : RClose(RSum(FSeq(ev.w, ev, c[1], c[2])), 1, "1e-6"))
JudgeStep(ev) ==
    Clause("supply:step-concentration-not-negative", \A c \in Cells(ev.zb) : \A f \in 1..Len(ev.C[c[1]][c[2]]) : ev.C[c[1]][c[2]][f] \succeq 0) \cup
    Clause("supply:step-pickup-within-supply", \A c \in Cells(ev.zb) : \A f \in 1..Len(ev.C[c[1]][c[2]]) :
              ev.pk[c[1]][c[2]][f] \preceq (ev.top0[c[1]][c[2]][f] ++ (ev.eps ** 4))) \cup
    Clause("supply:step-mass-not-negative", \A c \in Cells(ev.zb) : \A l \in 1..Len(ev.mass[c[1]][c[2]]) :
              \A f \in 1..Len(ev.mass[c[1]][c[2]][l]) : ev.mass[c[1]][c[2]][l][f] \succeq RNeg(ev.eps ** 4)) \cup
    Clause("budget:step-bed-level", \A c \in Cells(ev.zb) :
              RNear(ev.zb[c[1]][c[2]] -- ev.zb0[c[1]][c[2]], RNeg(RSum(ev.pk[c[1]][c[2]])) // ev.rho, "1e-6", "1e-12"))

Judge(ev) == IF ev.exc # "" THEN {"no-exception"} ELSE
             CASE ev.kind = "solve" -> IF RSeqFinite(ev.C) /\ RSeqFinite(ev.w) /\ RSeqFinite(ev.pk) THEN JudgeSolve(ev) ELSE {"finite"}
               [] ev.kind = "start" -> JudgeStart(ev)
               [] ev.kind = "weights" -> JudgeWeights(ev)
               [] ev.kind = "renorm" -> JudgeRenorm(ev)
               [] ev.kind = "step" -> IF RSeqFinite(ev.C) /\ RSeqFinite(ev.mass) /\ RSeqFinite(ev.zb) THEN JudgeStep(ev) ELSE {"finite"}

Tags(ev) == IF ev.exc # "" THEN {"exception"} ELSE
            IF ev.kind # "solve" THEN {ev.kind} ELSE
            {SCat("solver-", ev.solver), SCat("scheme-", ev.scheme), SCat("wind-", ev.wind), SCat("lateral-", ev.lat)} \cup
            Tag("equation-judged", \E f \in F(ev) : Untouched(ev, f)) \cup
            Tag("face-equation-judged", Fam(ev) = "face" /\ \E f \in F(ev) : Untouched(ev, f) /\ \A c \in Cells(ev.C[f]) : Unlimited(ev, f, c[1], c[2])) \cup
            (IF Fam(ev) = "face" /\ (Steady(ev) \/ ev.alpha = R(1)) /\ \E f \in F(ev) : Untouched(ev, f) /\ \A c \in Cells(ev.C[f]) : Unlimited(ev, f, c[1], c[2])
             THEN {SCat(SCat(ev.solver, "-rows-"), ev.lat)} ELSE {}) \cup
            Tag("supply-limited", \E f \in F(ev) : \E c \in Cells(ev.Cu[f]) :
                  ev.pk[f][c[1]][c[2]] \succ 0 /\ (ev.pk[f][c[1]][c[2]] ** "1.000001") \succeq ev.m[f][c[1]][c[2]])

TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
