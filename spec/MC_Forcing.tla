------------------------------ MODULE MC_Forcing ------------------------------
(* One cell over which wind, water, moisture and sand vary from step to step. *)
(* The implementation keeps the threshold in a state variable; the machine    *)
(* below keeps it the same way (recomputed in place, process by process), and *)
(* is compared with the closed form.                                          *)
EXTENDS Threshold, Wind, FiniteSets, TLC
CONSTANTS Moists, Stars, Methods, MoistMethods, MaxSteps
VARIABLES c, uth, us, tm, n
vars == <<c, uth, us, tm, n>>

P == [Aa |-> R("0.085"), rhog |-> R(2650), rhoa |-> R("1.225"), rhow |-> R(1025), g |-> R("9.81"), porosity |-> R("0.4"), w15 |-> R("0.02"),
      resw |-> R("0.01"), csalt |-> R("0.035"), m |-> R("0.5"), beta |-> R(130), sigma |-> R("4.2"), sizes |-> <<R("0.0002"), R("0.0005")>>,
      dist |-> <<R("0.5"), R("0.5")>>, eps |-> R("0.001"), th_salt |-> FALSE, th_sheltering |-> TRUE, th_nelayer |-> TRUE, file |-> FALSE, tide |-> TRUE,
      th_moisture |-> FALSE, method |-> "belly_johnson"]
T == [rhoa |-> R("1.225"), g |-> R("9.81"), Cb |-> R("1.5"), Ck |-> R("2.78"), Cl |-> R("6.7"), Cdk |-> R(5), acc |-> R(2)]
Ts == <<R(0), R(3600), R(7200), R(10800)>>
Dirs == <<R(350), R(10), R(200), R(90)>>
Speeds == <<R(5), R(12), R(0), R(8)>>
Cells == [moist : Moists, zs : {"-1", "2"}, cover : {"0.5", "0.005"}, wet : BOOLEAN]
Full(x) == [moist |-> x.moist, salt |-> R(1), zb |-> R(1), zs |-> x.zs, ne |-> R(1) -- x.cover, w |-> <<R(1), R(3)>>, ustar |-> us, mre |-> R(1), mim |-> R(0), prescribed |-> R("0.3")]
Par(x) == [P EXCEPT !.th_moisture = x.wet]

\* the order of the processes as a sequence of updates of one variable
InPlace(p, k) ==
  LET a == [f \in 1..2 |-> Base(p, p.sizes[f])]
      b == IF p.th_moisture THEN [f \in 1..2 |-> Moist(p, a[f], k.moist)]
           ELSE IF p.tide /\ (k.zb -- k.zs) \prec RNeg(p.eps) THEN [f \in 1..2 |-> Inf] ELSE a
      d == [f \in 1..2 |-> IF RFinite(b[f]) THEN b[f] ** Shelter(p, Rough(p, b, k.w, k.ustar)) ELSE b[f]]
      e == [f \in 1..2 |-> (d[f] ** k.mre) ++ k.mim]
  IN IF k.zb \preceq (k.ne ++ "0.01") THEN [f \in 1..2 |-> Inf] ELSE e

Init == c \in Cells /\ us \in Stars /\ tm = 0 /\ n = 0 /\ uth = InPlace(Par(c), Full(c))
Next == /\ n < MaxSteps /\ n' = n + 1 /\ c' \in Cells /\ us' \in Stars /\ tm' \in {0, 1799, 3600, 5000, 10800, 10801, 12000, 40000}
        /\ uth' = InPlace(Par(c'), [Full(c') EXCEPT !.ustar = us'])
Spec == Init /\ [][Next]_vars

NoMemory == \A f \in 1..2 : RClose(uth[f], Thresholds(Par(c), Full(c))[f], "1e-14") \/ REq(uth[f], Thresholds(Par(c), Full(c))[f])
\* with these methods every process raises the threshold
Raises == \A f \in 1..2 : uth[f] \succeq Base(P, P.sizes[f])
Blocked == (c.cover = "0.005" \/ (c.wet /\ Saturated(P, c.moist)) \/ (~c.wet /\ c.zs = "2")) => \A f \in 1..2 : ~RFinite(uth[f])
Cap(m, x, f) == Saturation(T, m, x, x, uth[f], R(6), P.sizes[f])
NonNegative == \A m \in Methods : \A f \in 1..2 : Cap(m, us, f) \succeq 0 /\ RFinite(Cap(m, us, f))
ZeroBelow == \A m \in Methods : \A f \in 1..2 : (us \preceq ((IF m = "dk" THEN R("0.8") ELSE R(1)) ** uth[f])) => REq(Cap(m, us, f), 0)
Monotone == \A m \in Methods : \A f \in 1..2 : \A x \in Stars : x \preceq us => Cap(m, x, f) \preceq (Cap(m, us, f) ++ "1e-15")
Formulas == \A mm \in MoistMethods : LET t == Moist(P, Base(P, "0.0002"), c.moist) IN t \succeq Base(P, "0.0002")
\* wind
InRange == LET u == Circular(tm, Ts, Speeds) IN u \succeq 0 /\ u \preceq 12
Periodic == \A k \in {1, 2} : RClose(Circular(tm ++ (R(10801) ** k), Ts, Speeds), Circular(tm, Ts, Speeds), "1e-9")
Identity == \A k \in 1..4 : RClose(Circular(Ts[k], Ts, Speeds), Speeds[k], "1e-12")
Unit == LET d == Direction(tm, Ts, Dirs)  a == Rad("37") IN
        /\ RClose((East(8, d) ** East(8, d)) ++ (North(8, d) ** North(8, d)), 64, "1e-9")
        /\ RClose((Along(8, d, <<RCos(a), RSin(a)>>) ** Along(8, d, <<RCos(a), RSin(a)>>)) ++
                  (Along(8, d, <<RNeg(RSin(a)), RCos(a)>>) ** Along(8, d, <<RNeg(RSin(a)), RCos(a)>>)), 64, "1e-9")
ShortArc == LET d == Direction("1800", Ts, Dirs) IN RAbs(d) \preceq "1e-6"         \* between 350 and 10 degrees lies the north
\* grain speed on a flat bed and over slopes
G == [rhog |-> R(2650), rhoa |-> R("1.225"), g |-> R("9.81"), v |-> R("0.000015"), Aa |-> R("0.085"), kappa |-> R("0.41")]
Speed(x, h, sep) == DuranSpeed(G, "0.0002", Base(P, "0.0002"), <<"0.8" ** x, "0.6" ** x>>, <<R("6.4"), R("4.8")>>, x, h, sep)
GrainSpeed ==
    LET f == RForce(Speed(us, <<R(0), R(0)>>, FALSE))
        up == RForce(Speed(us, <<R("0.1"), R(0)>>, FALSE))
        sp == RForce(Speed(us, <<R("0.1"), R(0)>>, TRUE)) IN
    /\ RClose(f[1] ** "0.6", f[2] ** "0.8", "1e-9")                             \* along the shear on a flat bed
    /\ us \succeq Base(P, "0.0002") => /\ RClose(Len2(f), RAbs(f[3]), "1e-9")   \* the flat bed speed
                                       /\ f[1] \succ 0
    /\ RClose(Len2(sp), "0.1", "1e-9")                                          \* nearly still in the bubble
    /\ us \succeq Base(P, "0.0002") => \A y \in Stars : us \preceq y => f[1] \preceq (Speed(y, <<R(0), R(0)>>, FALSE)[1] ++ "1e-12")
=============================================================================
