--------------------------------- MODULE Wind ---------------------------------
(* The wind that drives the model: time series, directions, the decomposition *)
(* along the axes of the grid, bed roughness and wind shear, grain speed.     *)
EXTENDS Num, Integers, Sequences

Rad(deg) == (deg ** Pi) // 180
Deg(rad) == (rad ** 180) // Pi

(* ------------------------------------------------------------- time series *)
\* piecewise linear interpolation of the points (xs[k], fs[k]), constant beyond
Interp(x, xs, fs) ==
    LET n == Len(xs) IN
    IF x \preceq xs[1] THEN R(fs[1])
    ELSE IF x \succeq xs[n] THEN R(fs[n])
    ELSE LET k == CHOOSE k \in 1..(n-1) : xs[k] \preceq x /\ x \prec xs[k+1]
         IN fs[k] ++ ((fs[k+1] -- fs[k]) ** ((x -- xs[k]) // (xs[k+1] -- xs[k])))
\* time series continue periodically: the first record follows one second after the last
Wrap(x, xs) == LET lo == R(xs[1])  rng == xs[Len(xs)] -- lo IN
    IF x \succeq lo /\ x \preceq xs[Len(xs)] THEN R(x) ELSE lo ++ RMod(x -- lo, rng ++ 1)
Circular(x, xs, fs) == Interp(Wrap(x, xs), xs, fs)

(* --------------------------------------------------------------- directions *)
\* the direction from which the wind blows, clockwise from the north; a wind of
\* exactly 0 (nautical) or 270 (cartesian) degrees is nudged by 0.01
Nautical(d, convention) ==
    IF convention = "nautical" THEN (IF REq(d, 0) THEN R("0.01") ELSE R(d))
    ELSE "270" -- (IF REq(d, 270) THEN R("270.01") ELSE R(d))
\* the direction is interpolated along the shortest arc (unit vectors)
Direction(t, ts, ds) == Deg(RAtan2(Circular(t, ts, [k \in 1..Len(ds) |-> RSin(Rad(ds[k]))]),
                                   Circular(t, ts, [k \in 1..Len(ds) |-> RCos(Rad(ds[k]))])))
\* components towards the east and the north
East(u, d)  == RNeg(u ** RSin(Rad(d)))
North(u, d) == RNeg(u ** RCos(Rad(d)))
\* components along an axis with unit vector <<ex, ey>> (east, north)
Along(u, d, e) == (East(u, d) ** e[1]) ++ (North(u, d) ** e[2])

(* ------------------------------------------------------------------ roughness *)
MeanSize(sizes, w) == RDot(sizes, w) // RSum(w)
CumW(w, k) == RSum(SubSeq(w, 1, k))
\* grain size that is not exceeded by pct percent of the mass (linear in mass)
Percentile(sizes, w, pct) ==
    LET tot == RSum(w)
        P(k) == IF k = 0 THEN R(0) ELSE (CumW(w, k) ** 100) // tot
        D(k) == IF k = 0 THEN R(0) ELSE R(sizes[k])
        k == CHOOSE k \in 1..Len(w) : P(k-1) \prec pct /\ pct \preceq P(k)
    IN D(k-1) ++ ((D(k) -- D(k-1)) ** ((pct -- P(k-1)) // (P(k) -- P(k-1))))
\* q: kb (k), z, kappa, sizes, dist, Ugr = sqrt((rhog-rhoa)/rhoa g); w: mass in the top layer; uw: wind speed
Z0(q, method, w, uw) ==
    CASE method = "constant" -> R(q.kb)
      [] method = "constant_nikuradse" -> q.kb // 30
      [] method = "mean_grainsize_initial" -> RDot(q.sizes, q.dist) // 30
      [] method = "mean_grainsize_adaptive" -> MeanSize(q.sizes, w) // 30
      [] method = "median_grainsize_adaptive" -> ("2" ** Percentile(q.sizes, w, 50)) // 30
      [] method = "vanrijn_strypsteen" ->
           LET d50 == IF Len(q.sizes) = 1 THEN R(q.sizes[1]) ELSE Percentile(q.sizes, w, 50)
               d90 == IF Len(q.sizes) = 1 THEN "2" ** d50 ELSE Percentile(q.sizes, w, 90)
               us == (q.kappa ** uw) // RLog(("30" ** q.z) // d90)
               th == ("0.1" ** q.Ugr) ** RSqrt(d50)
               T  == ((us ** us) // (th ** th)) -- 1
           IN (d90 ++ (("15" ** d50) ** ((R(1) ++ (R(1) // T)) ** T))) // 30
\* logarithmic profile
Ustar(u, q, z0) == (u ** q.kappa) // RLog(q.z // z0)
Stress(us, rhoa) == rhoa ** (us ** us)

(* ---------------------------------------------------------------- grain speed *)
\* constant: one metre per second in the direction of the shear, or of the wind
\* where there is no shear
ConstantSpeed(us, un, uws, uwn) ==
    LET u == RSqrt((us ** us) ++ (un ** un))  w == RSqrt((uws ** uws) ++ (uwn ** uwn)) IN
    IF u \succ 0 THEN <<us // u, un // u>>
    ELSE IF w \succ 0 THEN <<uws // w, uwn // w>> ELSE <<R(0), R(0)>>

\* Duran (2007): q holds rhog, rhoa, g, v (viscosity), Aa and kappa; d grain
\* size; ut threshold of the grain; us, uw the shear velocity and wind <<along,
\* across>>; u0 shear velocity over a flat bed; h slope of the bed <<along,
\* across>>; sep: inside a separation bubble.  Speed <<along, across, flat bed>>
Len2(v) == RSqrt((v[1] ** v[1]) ++ (v[2] ** v[2]))
Third == R(1) // 3
GrainSize(q, d) ==
    LET rel == (q.rhog // q.rhoa) -- 1
        lv  == RPow((q.v ** q.v) // ((q.Aa ** q.Aa) ** (q.g ** rel)), Third)
        alpha == R("0.17") ** (d // lv)
        S   == (d // (R(4) ** q.v)) ** RSqrt(q.g ** (d ** rel))
        b   == R("0.95") ++ ((RSqrt(R(2) ** alpha) ** "5.12") // S)
        Cd  == (R(4) // 3) ** (b ** b)
    IN [tv |-> RPow(q.v // (q.g ** q.g), Third), z0 |-> d // 20, z1 |-> R(35) ** lv, alpha |-> alpha,
        fall |-> RSqrt((R(4) // (R(3) ** Cd)) ** (rel ** (q.g ** d)))]
DuranSpeed(q, d, ut, us, uw, u0, h, sep) ==
    LET p   == RForce(GrainSize(q, d))
        t   == Len2(us)
        e   == IF t \succeq "0.05" THEN <<us[1] // t, us[2] // t>> ELSE <<uw[1] // Len2(uw), uw[2] // Len2(uw)>>
        zm  == ((R(14) // "2.4") ** ut) ** p.tv
        eff(x) == (ut // q.kappa) ** (RLog(p.z1 // p.z0) ++ ((p.z1 // zm) ** ((x // ut) -- 1)))
        r   == RSqrt(R(2) ** p.alpha)
        ax  == Len2([k \in 1..2 |-> e[k] ++ ((R(2) ** p.alpha) ** h[k])])
        v(k) == (((IF t \succeq ut THEN eff(t) ELSE R(0)) -- (p.fall // (r ** ax))) ** e[k]) -- (((r ** p.fall) // ax) ** h[k])
    IN IF sep THEN <<R("0.1") ** e[1], R("0.1") ** e[2], eff(u0) -- (p.fall // r)>>
       ELSE <<v(1), v(2), eff(u0) -- (p.fall // r)>>
=============================================================================
