-------------------------------- MODULE Hydro --------------------------------
(* Water: tide, waves and runup, the groundwater table below the beach, and   *)
(* the moisture and salt in the surface of the bed.                           *)
EXTENDS Wind

(* ------------------------------------------------------------------- masks *)
\* a complex mask <<re, im>> multiplies by re and adds im
Mask(v, k) == (v ** k[1]) ++ k[2]
NoMask == <<R(1), R(0)>>

(* ------------------------------------------------- water levels and waves *)
\* runup, set-up and swash (Stockdon et al. 2006)
Stockdon(H, T, beta) ==
    IF ~(H \succ 0 /\ T \succ 0 /\ beta \succ 0) THEN [R |-> R(0), eta |-> R(0), sigma |-> R(0)]
    ELSE LET L == (("9.81" ** T) ** T) // ("2" ** Pi)
             HL == H ** L
             xi == beta // RSqrt(H // L)
         IN IF xi \prec "0.3"
            THEN LET rr == "0.043" ** RSqrt(HL)  sg == "0.023" ** RSqrt(HL) IN [R |-> rr, eta |-> rr -- sg, sigma |-> sg]
            ELSE LET et == ("0.35" ** beta) ** RSqrt(HL)
                     sg == RSqrt(HL ** ((("0.563" ** beta) ** beta) ++ "0.0004")) // 2
                 IN [R |-> "1.1" ** (et ++ sg), eta |-> et, sigma |-> sg]

\* c: tide, wave, runup (switches), tt, tv, wt, wH, wT (series; tt, wt empty when not given), gamma, slope
\* z: bed level of the cells of a row; mt, mw, mr: masks of the cells
\* fields of a row at time t
Still(c, t, z, mt) == [k \in 1..Len(z) |->
    IF ~c.tide THEN R(0) ELSE Mask(IF Len(c.tt) = 0 THEN R(0) ELSE Circular(t, c.tt, c.tv), mt[k])]
Waves(c) == c.wave /\ Len(c.wt) > 0
Depth(wl, z) == RMax(0, wl -- z)
Limited(c, wl, z, H) == RMin(c.gamma ** Depth(wl, z), H)
Levels(c, t, z, mt, mw, mr) ==
    LET n == Len(z)
        swl == RForce(Still(c, t, z, mt))
        H0 == IF Waves(c) THEN Circular(t, c.wt, c.wH) ELSE R(0)
        T0 == IF Waves(c) THEN Circular(t, c.wt, c.wT) ELSE R(0)
        Hs == RForce([k \in 1..n |-> IF Waves(c) THEN Mask(Limited(c, swl[k], z[k], H0), mw[k]) ELSE R(0)])
        Tp == RForce([k \in 1..n |-> IF Waves(c) THEN Mask(T0, mw[k]) ELSE R(0)])
        st == Stockdon(Hs[1], Tp[1], c.slope)
        Ru == RForce([k \in 1..n |-> IF c.runup THEN Mask(st.R, mr[k]) ELSE R(0)])
        et == RForce([k \in 1..n |-> IF c.runup THEN Mask(st.eta, mr[k]) ELSE R(0)])
        twl == RForce([k \in 1..n |-> swl[k] ++ Ru[k]])
    IN [SWL |-> swl, Hs |-> Hs, Tp |-> Tp, R |-> Ru, eta |-> et, sigma |-> IF c.runup THEN st.sigma ELSE R(0),
        TWL |-> twl, DSWL |-> RForce([k \in 1..n |-> swl[k] ++ et[k]]),
        Hsmix |-> RForce([k \in 1..n |-> IF Waves(c) THEN Mask(Limited(c, twl[k], z[k], H0), mw[k]) ELSE R(0)]),
        zs |-> RForce([k \in 1..n |-> RMax(swl[k], z[k])])]

(* -------------------------------------------------------------- groundwater *)
\* last cell before the first one above the level; never before the second cell
FirstAbove(z, wl) == IF \E k \in 1..Len(z) : z[k] \succ wl[k]
                     THEN CHOOSE k \in 1..Len(z) : z[k] \succ wl[k] /\ \A j \in 1..(k-1) : ~(z[j] \succ wl[j])
                     ELSE Len(z) + 1
AtLeast(a, b) == IF a > b THEN a ELSE b
Shoreline(z, wl) == AtLeast(FirstAbove(z, wl) - 1, 2)
\* q: K, ne, D, stat, static (landward boundary), seepage; ds: cell sizes
Boundaries(q, g, z, dswl, sh) ==
    LET n == Len(z)
        land == IF q.static THEN R(q.stat) ELSE (IF n - 3 \in {sh, sh-1} THEN dswl[n-3] ELSE R(g[n-3]))
        g1 == RForce([k \in 1..n |-> IF k > n - 3 THEN land ELSE IF k = sh \/ k = sh - 1 THEN R(dswl[k]) ELSE R(g[k])])
        dry == {k \in 1..n : ~((g1[k] ++ "0.05") \succeq z[k])}
        f == IF dry = {} THEN 1 ELSE CHOOSE k \in dry : \A j \in dry : k <= j
    IN IF ~q.seepage \/ ~(sh < f - 1) THEN g1
       ELSE RForce([k \in 1..n |-> IF k >= sh /\ k < f - 1 THEN R(z[k]) ELSE g1[k]])
\* rate of change of the groundwater level: K/ne (D d2g/dx2 + d/dx (g dg/dx))
Rate(q, g, ds, sh) ==
    LET n == Len(g)
        flow(k) == (g[k] ** (g[k+1] -- g[k-1])) // ("2" ** ds[k])
        b == RForce([k \in 1..n |-> IF k >= sh /\ k <= n - 2 THEN flow(k) ELSE R(0)])
    IN RForce([k \in 1..n |-> IF k <= sh \/ k > n - 3 THEN R(0) ELSE
        (q.K // q.ne) ** ((q.D ** (((g[k+1] -- ("2" ** g[k])) ++ g[k-1]) // (ds[k] ** ds[k]))) ++ ((b[k+1] -- b[k-1]) // ("2" ** ds[k])))])
Plus(g, f, r) == RForce([k \in 1..Len(g) |-> g[k] ++ (f ** r[k])])
\* one step of the fourth order Runge-Kutta scheme; the boundaries hold at every stage
RungeKutta(q, g0, z, dswl, ds, sh, dt) ==
    LET g == Boundaries(q, g0, z, dswl, sh)
        f1 == Rate(q, g, ds, sh)
        f2 == Rate(q, Boundaries(q, Plus(g, dt // 2, f1), z, dswl, sh), ds, sh)
        f3 == Rate(q, Boundaries(q, Plus(g, dt // 2, f2), z, dswl, sh), ds, sh)
        f4 == Rate(q, Boundaries(q, Plus(g, dt, f3), z, dswl, sh), ds, sh)
    IN RForce([k \in 1..Len(g) |-> g[k] ++ ((dt // 6) ** (((f1[k] ++ ("2" ** f2[k])) ++ ("2" ** f3[k])) ++ f4[k]))])
\* overheight by infiltrating runup: a triangle between the shoreline sh and the
\* runup limit ru with its top of 1 at two thirds
Overheight(x, sh, ru, k) ==
    LET top == sh + (2 * (ru - sh)) \div 3
        len == x[ru] -- x[sh]
    IN IF ru <= sh THEN R(0)
       ELSE IF k = top THEN R(1)
       ELSE IF k >= sh /\ k < top THEN (x[k] -- x[sh]) // ((2 // 3) ** len)
       ELSE IF k > top /\ k < ru THEN "3" -- ((x[k] -- x[sh]) // ((1 // 3) ** len))
       ELSE R(0)
\* the table is bounded by the bed; below water it is the water level
Capped(g, z, dswl) == IF z \prec dswl THEN R(dswl) ELSE RMin(g, z)
GwStep(q, g, z, x, ds, dswl, twl, mg, waves, dt) ==
    LET sh == Shoreline(z, dswl)
        ru == AtLeast(FirstAbove(z, twl) - 1, sh)
        g1 == RungeKutta(q, g, z, dswl, ds, sh, dt)
    IN RForce([k \in 1..Len(g) |->
         Capped(Mask(IF waves THEN g1[k] ++ (q.Cl ** Overheight(x, sh, ru, k)) ELSE g1[k], mg[k]), z[k], dswl[k])])

(* -------------------------------------------------------- moisture and salt *)
Half == RLog("0.5")
Decay(dt, T) == RExp((Half ** dt) // T)                 \* halves every T seconds
\* infiltration method: wet cells are saturated, others dry out
Infiltration(m, wet, dt, T, porosity) ==
    RMax(0, RMin(porosity, IF wet THEN R(porosity) ELSE m ** Decay(dt, T)))
\* soil water retention (van Genuchten); c = <<res, sat, alfa, n, m>>, h in cm
Retention(c, h) == c[1] ++ ((c[2] -- c[1]) // RPow(R(1) ++ RPow(RAbs(c[3] ** h), c[4]), c[5]))
SuctionOf(c, th) ==     \* the suction at which the retention is th
    RMax(0, RPow(RPow((c[2] -- c[1]) // RMax(th -- c[1], "0.00001"), R(1) // c[5]) -- 1, R(1) // c[4]) // RAbs(c[3]))
Suction(z, gw) == RMax(0, (z -- gw) ** 100)
\* scanning curves between the main wetting and drying curves, for suction h and suction hd at the reversal
ScanWet(w, d, h, hd) == LET wh == Retention(w, h)  whd == Retention(w, hd)  IN
    RMax(RMin(wh ++ (((w[2] -- wh) // RMax(w[2] -- whd, "0.0001")) ** (Retention(d, hd) -- whd)), Retention(d, h)), wh)
ScanDry(w, d, h, hd) == LET wh == Retention(w, h)  dh == Retention(d, h)  IN
    RMax(RMin(wh ++ (((Retention(w, hd) -- wh) // RMax(d[2] -- wh, "0.0001")) ** (dh -- wh)), dh), wh)
\* a: wetting (in the previous step), sw, sd (on a scanning curve), hd (suction at reversal), swm, sdm (moisture on the
\* scanning curves of the previous step), h0 (suction of the previous step); rising: the table does not fall
Falling(gw, gp) == gw \prec gp
Rising(gw, gp) == gw \succ gp
\* where the new suction of reversal comes from
Reversal(a, gw, gp) ==
    IF a.wetting /\ a.sw /\ Falling(gw, gp) THEN "drying"               \* leaves a wetting scanning curve
    ELSE IF ~a.wetting /\ a.sd /\ Rising(gw, gp) THEN "wetting"         \* leaves a drying scanning curve
    ELSE IF (~a.sw /\ a.wetting /\ Falling(gw, gp)) \/ (~a.sd /\ ~a.wetting /\ Rising(gw, gp)) THEN "main"
    ELSE "none"
\* the curve that is followed: the main curves "w", "d" or the scanning curves "sw", "sd"
Curve(a, gw, gp) ==
    IF ~Falling(gw, gp) THEN (IF a.wetting /\ ~a.sw THEN "w" ELSE "sw")
    ELSE (IF ~a.wetting /\ ~a.sd THEN "d" ELSE "sd")
OnCurve(w, d, h, hd, cv) == CASE cv = "w" -> Retention(w, h) [] cv = "d" -> Retention(d, h)
                              [] cv = "sw" -> ScanWet(w, d, h, hd) [] cv = "sd" -> ScanDry(w, d, h, hd)
\* a scanning curve is left when it meets the main curve
StaysW(w, d, h, hd, cv) == cv = "sw" /\ ScanWet(w, d, h, hd) \succ Retention(w, h)
StaysD(w, d, h, hd, cv) == cv = "sd" /\ ScanDry(w, d, h, hd) \prec Retention(d, h)

\* evaporation in mm/day (Penman; Shuttleworth 1993); met: T, Q, P, U
VapourPressure(T) == "0.6108" ** RExp(("17.27" ** T) // (T ++ "237.3"))
Evaporation(met, uw, z, cpair) ==
    LET l == "2.26"
        m == ("4098" ** VapourPressure(met.T)) // ((met.T ++ "237.3") ** (met.T ++ "237.3"))
        delta == VapourPressure(met.T) ** (R(1) -- (met.U // 100))
        gam == (cpair ** met.P) // ("0.622" ** l)
        u2 == ("0.174" // (RLog(z // 2) // RLog(10))) ** uw
    IN ((m ** met.Q) ++ ((("6.43" ** gam) ** delta) ** (R(1) ++ ("0.86" ** u2)))) // (l ** (m ++ gam))
\* surface moisture: drainage above field capacity, flooding, rain and evaporation, capillary rise
\* e: T (drying time), fc, res, sat, thick
Surface(e, m, wet, rain, evap, swr, dt) ==
    LET m1 == m ++ RMin(0, (m -- e.fc) ** (Decay(dt, e.T) -- 1))
        m2 == IF wet THEN R(e.sat)
              ELSE RMin(e.sat, RMax(e.res, m1 ++ (((rain -- evap) ** dt) // e.thick)))
    IN RMin(e.sat, RMax(m2, swr))
Salt(s, wet, dt, T, rain, thick) == RMin(1, (IF wet THEN R(1) ELSE s ** Decay(dt, T)) ++ ((rain ** dt) // thick))
=============================================================================
