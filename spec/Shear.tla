-------------------------------- MODULE Shear --------------------------------
(* Wind over topography: perturbation of the shear stress along a profile,    *)
(* separation bubbles, and sand fences with their lee.                        *)
EXTENDS Num, Integers, Sequences

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Bound(lo, x, hi) == RMin(RMax(x, lo), hi)

\* ---- one dimension: tau / tau0 for wind towards increasing index
Slope(z, dx) == [i \in 1..Len(z) |-> IF i = 1 \/ i = Len(z) THEN R(0) ELSE (z[i+1] -- z[i-1]) // (dx ** 2)]
Upstream(sl, i) == RSum([k \in 1..Len(sl) |-> IF k = i THEN R(0) ELSE sl[k] // (Pi ** (i - k))])
Amplify(z, dx) == LET sl == RForce(Slope(z, dx)) IN [i \in 1..Len(z) |-> RMax(R(1) ++ (R(3) ** (Upstream(sl, i) ++ sl[i])), "0.1")]
Profile(z, dx, forward) == IF forward THEN Amplify(z, dx) ELSE Rev(Amplify(Rev(z), dx))

\* inside a separation bubble of height h the stress vanishes within 10 cm
Bubble(h) == Bound(0, R(1) -- (R(10) ** h), 1)
\* a bubble needs a lee slope (degrees) steeper than mu
Stalls(z, dx, mu, forward) == LET w == IF forward THEN z ELSE Rev(z) IN
    \E i \in 1..(Len(w) - 1) : (RAtan((w[i+1] -- w[i]) // dx) ** 180) \preceq (RNeg(mu) ** Pi)

\* the bubble behind a brink: w along the wind with spacing dl along the wind,
\* dx along the grid; mu steepest lee slope (degrees), c steepest slope of the
\* bubble.  It starts two cells before the slope stalls, flat, and falls as a
\* cubic to the ground at a distance set by the height of the brink.
LeeAngle(w, dl, k) ==
    LET n == Len(w)  q == IF k = 1 THEN 2 ELSE IF k = n THEN n - 1 ELSE k
    IN (RAtan((w[q+1] -- w[q]) // dl) ** 180) // Pi
Stalled(w, dl, mu, k) == LeeAngle(w, dl, k) \prec RNeg(mu)
StallZone(w, dl, mu, k) == Stalled(w, dl, mu, k) \/ (k > 1 /\ k < Len(w) /\ Stalled(w, dl, mu, k - 1))
Onsets(w, dl, mu) == {k \in 1..(Len(w) - 1) : ~StallZone(w, dl, mu, k) /\ StallZone(w, dl, mu, k + 1)}
Brinks(w, dl, mu) == {k - 2 : k \in {q \in Onsets(w, dl, mu) : q > 4}}
\* beds for which the bubble is determined: one brink, on ground at level 0
Foot(w, dl, i) == {k \in (i + 5)..Len(w) : LeeAngle(w, dl, k) \succeq 0}
BubbleLength(h, slope, c) ==
    LET a == slope // c IN RMin(RMax(((R(3) ** h) // (R(2) ** c)) ** (R(1) ++ (a // 4) ++ ((a ** a) // 8)), "0.1"), 200)
\* the bubble does not end on a cell boundary, where rounding decides
InCell(l, dl) == LET q == l // dl  f == q -- R(RToInt(q)) IN f \succ "1e-6" /\ f \prec "0.999999"
PlainLee(w, dl, mu, c) ==
    /\ \A k \in 1..Len(w) : w[k] \succeq 0 /\ RAbs(LeeAngle(w, dl, k) ++ mu) \succ "1e-6"
    /\ (Len(w) - 1) \notin Onsets(w, dl, mu)
    /\ \A i, j \in Brinks(w, dl, mu) : i = j
    /\ \A i \in Brinks(w, dl, mu) : LET F == Foot(w, dl, i) IN
          F = {} \/ REq(w[CHOOSE k \in F : \A q \in F : k <= q], 0)
    /\ \A i \in Brinks(w, dl, mu) : InCell(BubbleLength(w[i], (w[i-1] -- w[i-2]) // dl, c), dl) /\ InCell(BubbleLength(w[i], R(0), c), dl)
BubbleTop(w, dl, dx, mu, c) ==
    IF Brinks(w, dl, mu) = {} THEN [k \in 1..Len(w) |-> R(w[k])] ELSE
    LET i == CHOOSE b \in Brinks(w, dl, mu) : TRUE
        n == Len(w)
        reach(l) == LET e == i + RToInt(l // dl) IN IF e < n THEN e ELSE n
        e0 == reach(BubbleLength(w[i], (w[i-1] -- w[i-2]) // dl, c))
        l1 == BubbleLength(w[i], R(0), c)
        e1 == reach(l1)
        t(k) == (R(k - i) ** dx) // l1
        cubic(k) == w[i] ** ((R(1) -- (R(3) ** (t(k) ** t(k)))) ++ (R(2) ** (t(k) ** (t(k) ** t(k)))))
    IN [k \in 1..n |-> IF k < i \/ k >= e0 THEN R(w[k]) ELSE RMax(w[k], IF k < e1 THEN cubic(k) ELSE R(0))]

\* ---- sand fences: height above the current bed
FenceUp(top, z, init) ==
    LET h == top -- z IN
    IF init \prec "0.1" \/ top \prec "0.1" \/ h \prec "0.1" \/ h \succ "1.5" THEN R(0) ELSE h
FenceLost(top, z, init) == (init \succeq "0.1" /\ top \succeq "0.1" /\ (top -- z) \succ "1.5")
\* reduction of the shear velocity at a distance d downwind of a fence of height h
Okin(d, h, c, i0) ==
    IF d \prec 0 \/ ~((d // h) \prec 20) THEN R(0)
    ELSE LET r == R(1) -- (R(i0) ++ ((R(1) -- i0) ** (R(1) -- RExp(RNeg((d ** c) // h))))) IN
         IF r \prec "0.00001" THEN R(0) ELSE RMin(r, 1)
Lee(x, h, i, c, i0, forward) ==
    RMin(1, RSum([k \in 1..Len(x) |-> IF h[k] \succ 0 THEN Okin(IF forward THEN x[i] -- x[k] ELSE x[k] -- x[i], h[k], c, i0) ELSE R(0)]))
=============================================================================
