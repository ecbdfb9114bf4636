---------------------------- MODULE BedExchange ----------------------------
(* The layered bed of one grid cell.                                          *)
(*                                                                            *)
(* State: m[l][f], mass of fraction f in layer l (layer 1 on top).            *)
(* Transition Exchange(m, pk, gd): the net pickup pk[f] (kg/m2, erosion > 0)  *)
(* leaves the top layer; every layer is restored to its former total mass by  *)
(* exchange with the layer below, the lowest layer by exchange with an        *)
(* infinite source of composition gd (erosion) or by losing sediment of its   *)
(* own composition to it (deposition).                                        *)
EXTENDS Num, Integers, Sequences

Total(x)  == RSum(x)
Zero(n)   == [f \in 1..n |-> R(0)]
Scale(x, c) == RForce([f \in 1..Len(x) |-> x[f] ** c])
Plus(x, y)  == RForce([f \in 1..Len(x) |-> x[f] ++ y[f]])
Minus(x, y) == RForce([f \in 1..Len(x) |-> x[f] -- y[f]])
Comp(x)   == LET t == Total(x) IN IF REq(t, 0) THEN Zero(Len(x)) ELSE Scale(x, R(1) // t)
Sign(pk)  == LET t == Total(pk) IN IF t \succ 0 THEN "erosion" ELSE IF t \prec 0 THEN "deposition" ELSE "none"

----------------------------------------------------------------------------
(* Net erosion of E = Total(pk): layer l is replenished with E of the         *)
(* composition of layer l+1.                                                  *)
Erode(m, pk, gd) ==
    LET n == Len(m)  E == Total(pk)
        below(l) == IF l = n THEN gd ELSE Comp(m[l+1])
    IN RForce([l \in 1..n |->
         LET give == IF l = 1 THEN pk ELSE Scale(Comp(m[l]), E)
         IN Plus(Minus(m[l], give), Scale(below(l), E))])

(* Net deposition of D = -Total(pk).  Erosional fractions are first swapped   *)
(* for depositing ones (the layer total does not change); then whole layers   *)
(* are filled with fresh sediment while the deposit exceeds the mass of the   *)
(* top layer; the rest pushes D of its own composition out of every layer.    *)
Swap(m, pk) ==
    LET n   == Len(pk)
        ero == RForce([f \in 1..n |-> RMax(0, pk[f])])
        dep == RForce([f \in 1..n |-> RMax(0, RNeg(pk[f]))])
        sub == Scale(Comp(dep), Total(ero))
    IN [top |-> Plus(Minus(m[1], ero), sub), dep |-> Minus(dep, sub)]

RECURSIVE Fill(_, _, _, _)
Fill(m, dep, mx, l) ==          \* dep: fresh deposit still to be placed
    IF l > Len(m) \/ ~(mx \preceq Total(dep)) \/ ~(mx \succ 0) THEN [m |-> m, dep |-> dep]
    ELSE LET fresh == Scale(Comp(dep), mx)
             m2 == RForce([k \in 1..Len(m) |-> IF k < l THEN m[k] ELSE IF k = l THEN fresh ELSE m[k-1]])
         IN Fill(m2, Minus(dep, fresh), mx, l + 1)

Deposit(m, pk) ==
    LET sw == Swap(m, pk)
        m1 == RForce([l \in 1..Len(m) |-> IF l = 1 THEN sw.top ELSE m[l]])
        fi == Fill(m1, sw.dep, Total(m1[1]), 1)
        full == ~(Total(fi.dep) \prec Total(m1[1]))   \* all layers fresh and still more on top
        D  == IF full THEN R(0) ELSE Total(fi.dep)
        in == IF full THEN Zero(Len(pk)) ELSE fi.dep
        q  == fi.m
    IN RForce([l \in 1..Len(q) |->
         LET recv == IF l = 1 THEN in ELSE Scale(Comp(q[l-1]), D)
         IN Plus(Minus(q[l], Scale(Comp(q[l]), D)), recv)])

Exchange(m, pk, gd) ==
    CASE Sign(pk) = "erosion"    -> Erode(m, pk, gd)
      [] Sign(pk) = "deposition" -> Deposit(m, pk)
      [] OTHER -> RForce([l \in 1..Len(m) |-> IF l = 1 THEN Minus(m[1], pk) ELSE m[l]])

BedRise(pk, rho) == RNeg(Total(pk)) // rho

----------------------------------------------------------------------------
(* Properties of one exchange.  tol is relative to the layer mass.            *)
Scale0(m, pk) == RMaxSeq(<<R("1e-12"), Total(m[1]), RMaxSeq([f \in 1..Len(pk) |-> RAbs(pk[f])])>>)
Within(a, b, tol, sc) == RAbs(a -- b) \preceq (tol ** sc)

LayerTotalsKept(m, q, tol, sc) == \A l \in 1..Len(m) : Within(Total(m[l]), Total(q[l]), tol, sc)
Column(m, f) == RSum([l \in 1..Len(m) |-> m[l][f]])
\* out[f]: what the column loses to (+) or gains from (-) the source below
BaseFlux(m, q, pk, f) == (Column(m, f) -- pk[f]) -- Column(q, f)
ColumnBalance(m, q, pk, gd, tol, sc) ==
    LET E == Total(pk) IN
    IF E \succ 0 THEN \A f \in 1..Len(pk) : Within(BaseFlux(m, q, pk, f), RNeg(E ** gd[f]), tol, sc)
    ELSE \* deposition: nothing comes up from below, what leaves equals the deposit
         /\ \A f \in 1..Len(pk) : BaseFlux(m, q, pk, f) \succeq RNeg(tol ** sc)
         /\ Within(RSum([f \in 1..Len(pk) |-> BaseFlux(m, q, pk, f)]), RNeg(E), tol, sc)
NonNegative(q, eps) == \A l \in 1..Len(q) : \A f \in 1..Len(q[l]) : q[l][f] \succeq RNeg(eps)
Affordable(m, pk) == \A f \in 1..Len(pk) : pk[f] \preceq m[1][f]
=============================================================================
