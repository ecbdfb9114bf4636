------------------------------- MODULE MC_Hydro -------------------------------
(* A beach under a tide that takes any course, with waves, rain and drought.  *)
EXTENDS Hydro, FiniteSets, TLC
CONSTANTS Tides, Heights, Rains, Bounds, MaxSteps
VARIABLES tide, H, g, gp, wet, m, sw, sd, hd, swm, sdm, wh, dh, swr, salt, bnd, n, lv
vars == <<tide, H, g, gp, wet, m, sw, sd, hd, swm, sdm, wh, dh, swr, salt, bnd, n, lv>>

Z == <<R("-1"), R("-0.6"), R("-0.2"), R("0.1"), R("0.4"), R("0.8"), R("1.1"), R("1.6")>>
NC == Len(Z)
X == [k \in 1..NC |-> R(5 * k)]
DS == [k \in 1..NC |-> R(5)]
None == [k \in 1..NC |-> NoMask]
Dt == R(600)
W == <<R("0.01"), R("0.35"), R("-0.07"), R("2.3"), R("0.57")>>
D == <<R("0.01"), R("0.5"), R("-0.035"), R("4.5"), R("0.42")>>
E == [T |-> R(5400), fc |-> R("0.11"), res |-> R("0.01"), sat |-> R("0.5"), thick |-> R("0.002")]
Q(b) == [K |-> R("0.0005"), ne |-> R("0.3"), D |-> R(12), Cl |-> R("0.7"), stat |-> R("0.5"), static |-> b.static, seepage |-> b.seepage]
C(td, h) == [tide |-> TRUE, wave |-> h \succ 0, runup |-> TRUE, tt |-> <<R(0), R(1000000)>>, tv |-> <<R(td), R(td)>>,
             wt |-> <<R(0), R(1000000)>>, wH |-> <<R(h), R(h)>>, wT |-> <<R(8), R(8)>>, gamma |-> R("0.5"), slope |-> R("0.1")]
Lev(td, h) == Levels(C(td, h), 0, Z, None, None, None)
Zero == [k \in 1..NC |-> R(0)]
Off == [k \in 1..NC |-> FALSE]
\* the first suction (in steps of 2 cm) at which a wetting scanning curve has come down to a moisture content
WetAt(a, x) == a.wh ++ (((W[2] -- a.wh) // RMax(W[2] -- Retention(W, x), "0.0001")) ** (Retention(D, x) -- Retention(W, x)))
First(a, th) == LET S == {j \in 0..400 : WetAt(a, 2 * j) \preceq (th ++ "0.01")} IN R(2 * (CHOOSE j \in S : \A k \in S : j <= k))
NewHd(a, h, gw, gpr) == LET rv == Reversal(a, gw, gpr) IN
    CASE rv = "none" -> R(a.hd) [] rv = "main" -> R(h)
      [] rv = "drying" -> R(SuctionOf(W, RMin((((a.swm -- a.wh) ** (D[2] -- a.wh)) // (a.dh -- a.wh)) ++ a.wh, W[2])))
      [] rv = "wetting" -> First(a, a.sdm)

Init == /\ tide \in Tides /\ H \in Heights /\ bnd \in Bounds /\ n = 0
        /\ lv = Lev(tide, H)
        /\ g = [k \in 1..NC |-> R(0)] /\ gp = g /\ wet = Off
        /\ m = [k \in 1..NC |-> R("0.05")] /\ sw = Off /\ sd = Off /\ hd = [k \in 1..NC |-> R(Suction(Z[k], 0))]
        /\ swm = Zero /\ sdm = Zero /\ wh = Zero /\ dh = Zero /\ salt = Zero
        /\ swr = [k \in 1..NC |-> R(Retention(W, Suction(Z[k], 0)))]
Next ==
  /\ n < MaxSteps /\ n' = n + 1 /\ bnd' = bnd
  /\ tide' \in Tides /\ H' \in Heights
  /\ \E rain \in Rains :
     \E L \in {Lev(tide', H')} :
     \E g1 \in {GwStep(Q(bnd), g, Z, X, DS, L.DSWL, L.TWL, None, H' \succ 0, Dt)} :
     \E wt \in {RForce([k \in 1..NC |-> g[k] \succ gp[k]])} :
     \E a \in {RForce([k \in 1..NC |-> [wetting |-> wt[k], sw |-> sw[k], sd |-> sd[k], hd |-> hd[k], swm |-> swm[k], sdm |-> sdm[k], wh |-> wh[k], dh |-> dh[k]]])} :
     \E h \in {RForce([k \in 1..NC |-> R(Suction(Z[k], g1[k]))])} :
     \E hn \in {RForce([k \in 1..NC |-> R(NewHd(a[k], h[k], g1[k], g[k]))])} :
     \E cv \in {RForce([k \in 1..NC |-> Curve(a[k], g1[k], g[k])])} :
     \E sr \in {RForce([k \in 1..NC |-> R(OnCurve(W, D, h[k], hn[k], cv[k]))])} :
        /\ lv' = L /\ g' = g1 /\ gp' = g /\ wet' = wt /\ hd' = hn /\ swr' = sr
        /\ sw' = [k \in 1..NC |-> StaysW(W, D, h[k], hn[k], cv[k])] /\ sd' = [k \in 1..NC |-> StaysD(W, D, h[k], hn[k], cv[k])]
        /\ swm' = RForce([k \in 1..NC |-> ScanWet(W, D, h[k], hn[k])]) /\ sdm' = RForce([k \in 1..NC |-> ScanDry(W, D, h[k], hn[k])])
        /\ wh' = RForce([k \in 1..NC |-> Retention(W, h[k])]) /\ dh' = RForce([k \in 1..NC |-> Retention(D, h[k])])
        /\ m' = RForce([k \in 1..NC |-> Surface(E, m[k], L.TWL[k] \succ Z[k], rain, "0.00000005", sr[k], Dt)])
        /\ salt' = RForce([k \in 1..NC |-> Salt(salt[k], (L.TWL[k] -- Z[k]) \succ "0.001", Dt, 2592000, rain, "0.01")])
Spec == Init /\ [][Next]_vars

QuickBounds == {[static |-> FALSE, seepage |-> TRUE]}
AllBounds == {[static |-> a, seepage |-> b] : a \in BOOLEAN, b \in BOOLEAN}

Cells == 1..NC
DepthLimited == \A k \in Cells : lv.Hs[k] \preceq ("0.5" ** Depth(lv.SWL[k], Z[k])) /\ lv.Hs[k] \succeq 0
Order == \A k \in Cells : lv.SWL[k] \preceq lv.DSWL[k] /\ lv.DSWL[k] \preceq lv.TWL[k] /\ lv.zs[k] \succeq Z[k] /\ lv.zs[k] \succeq lv.SWL[k]
Table == n > 0 => \A k \in Cells : g[k] \preceq (RMax(Z[k], lv.DSWL[k]) ++ "1e-9") /\ (Z[k] \prec lv.DSWL[k] => RClose(g[k], lv.DSWL[k], "1e-12"))
\* a table level with the sea stays level
Level == \A b \in Bounds : \A td \in Tides : LET L == Lev(td, 0)  flat == [k \in Cells |-> R(td)] IN
    LET r == RungeKutta([Q(b) EXCEPT !.stat = td, !.seepage = FALSE], flat, Z, L.DSWL, DS, Shoreline(Z, L.DSWL), Dt) IN
    \A k \in Cells : RClose(r[k], td, "1e-12")
\* without infiltration the table stays between its extremes, those of the sea and of the landward boundary
Extremes == LET q == [Q(bnd) EXCEPT !.seepage = FALSE]
                r == RungeKutta(q, g, Z, lv.DSWL, DS, Shoreline(Z, lv.DSWL), Dt)
                all == [k \in 1..(3 * NC + 1) |-> IF k <= NC THEN g[k] ELSE IF k <= 2 * NC THEN lv.DSWL[k-NC] ELSE IF k <= 3 * NC THEN g[k-2*NC] ELSE IF bnd.static THEN q.stat ELSE g[1]]
            IN \A k \in Cells : r[k] \succeq (RMinSeq(all) -- "0.01") /\ r[k] \preceq (RMaxSeq(all) ++ "0.01")
Moisture == \A k \in Cells : m[k] \succeq E.res /\ m[k] \preceq E.sat /\ salt[k] \succeq 0 /\ salt[k] \preceq 1
Flooded == n > 0 => \A k \in Cells : lv.TWL[k] \succ Z[k] => REq(m[k], E.sat) /\ (lv.TWL[k] -- Z[k] \succ "0.001" => REq(salt[k], 1))
Between == \A k \in Cells : LET h == Suction(Z[k], g[k]) IN n > 0 =>
    swr[k] \succeq (Retention(W, h) -- "1e-12") /\ swr[k] \preceq (Retention(D, h) ++ "1e-12")
OneCurve == \A k \in Cells : ~(sw[k] /\ sd[k])
Drier == \A h \in {"0", "1", "10", "50", "200"} : Retention(D, h) \succeq Retention(W, h) /\ RClose(SuctionOf(W, Retention(W, h)), h, "1e-3")
\* the moisture does not jump when the table turns: the new curve passes through the moisture at the turn
NoJump == [][\A k \in Cells : LET a == [wetting |-> g[k] \succ gp[k], sw |-> sw[k], sd |-> sd[k]] IN
    (Reversal(a, g'[k], g[k]) = "drying" /\ hd'[k] \succ "1e-6") =>
      RAbs((wh[k] ++ (((Retention(W, hd'[k]) -- wh[k]) // RMax(D[2] -- wh[k], "0.0001")) ** (dh[k] -- wh[k]))) -- swr[k]) \preceq "1e-5"]_vars
=============================================================================
