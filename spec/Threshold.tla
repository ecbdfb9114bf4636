------------------------------- MODULE Threshold -------------------------------
(* The shear velocity threshold of a cell and the saturation concentration of *)
(* the transport formulations.                                                *)
EXTENDS Num, Integers, Sequences

Inf == RDiv(1, 0)
(* ----------------------------------------------------------------- threshold *)
\* p: Aa, rhog, rhoa, rhow, g, porosity, w15, resw, csalt, m, beta, sigma, sizes, dist, method and the switches
Base(p, d) == p.Aa ** RSqrt(((p.rhog -- p.rhoa) // p.rhoa) ** (p.g ** d))
MeanD(p) == RDot(p.sizes, p.dist)
\* gravimetric moisture content (mass per dry mass)
Gravimetric(p, moist) == (moist ** p.rhow) // (p.rhog ** (R(1) -- p.porosity))
Moistened(p, moist) == Gravimetric(p, moist) \succ (Gravimetric(p, p.resw) ++ "0.005")
Saturated(p, moist) == Gravimetric(p, moist) \succ "0.064"
DongK(d) == IF d \prec "0.135" THEN R("2.51") ELSE IF d \prec "0.150" THEN R("2.05") ELSE IF d \prec "0.200" THEN R("2.75")
            ELSE IF d \prec "0.250" THEN R("1.59") ELSE IF d \prec "0.400" THEN R("1.87") ELSE R("2.15")
RelDensity(p) == (p.rhog -- p.rhoa) // p.rhoa
MoistFormula(p, method, u, mg) ==
  LET x == mg // p.w15  d == MeanD(p) IN
  CASE method = "belly_johnson" -> u ** RMax(1, R("1.8") ++ ("0.6" ** (RLog(mg ** 100) // RLog(10))))
    [] method = "hotta" -> u ++ ("7.5" ** mg)
    [] method = "chepil" -> RSqrt((u ** u) ++ (("0.6" ** (mg ** mg)) // (p.rhoa ** (p.w15 ** p.w15))))
    [] method = "saleh_fryear" -> R("0.305") ++ (("0.022" ** x) ++ ("0.506" ** (x ** x)))
    [] method = "saleh_fryear_mod" -> u ++ (("0.022" ** x) ++ ("0.506" ** (x ** x)))
    [] method = "shao" -> u ** RExp("22.7" ** mg)
    [] method = "dong_2002" -> u ** RSqrt(R(1) ++ ((DongK(d ** 1000) ** 100) ** mg))
    [] method = "gregory_darwish" ->
         u ** RSqrt(((R(1) ++ mg) ++ ((("6" // Pi) ** "6.12e-05") // ((p.rhog ** p.g) ** (d ** d)))) ++
                    ((R("738.8") // ((p.rhow ** p.g) ** d)) ** (RExp(RNeg("0.1" ** x)) ** RMax(0, mg -- ("0.5" ** p.w15)))))
    [] method = "cornelis" ->
         RSqrt("0.013" ** ((R(1) ++ mg) ++
               ((("1.7e-4" // (((p.rhog -- p.rhoa) ** p.g) ** (d ** d))) **
                 (R(1) ++ ((("3e14" ** ("0.075" ** "0.075")) ** d) // ("1e9" ** RExp(RNeg("6.5" ** x)))))) ** ((RelDensity(p) ** p.g) ** d))))
    [] method = "dong_2007" -> ("0.16" ** RSqrt((RelDensity(p) ** p.g) ** d)) ** (R(1) ++ ("478.2" ** RPow(mg, "1.52")))
Moist(p, u, moist) ==
    IF Saturated(p, moist) THEN Inf
    ELSE IF Moistened(p, moist) THEN MoistFormula(p, p.method, u, Gravimetric(p, moist)) ELSE R(u)
Salty(p, u, salt) == u ** ("1.03" ** RExp(("102.7" ** p.csalt) ** (R(1) -- salt)))
\* roughness by the fractions that do not move (mass w per fraction, thresholds us)
Rough(p, us, w, ustar) == RSum([f \in 1..Len(w) |-> IF ustar \preceq us[f] THEN R(w[f]) ELSE R(0)]) // RSum(w)
Shelter(p, gd) == RSqrt((R(1) -- (p.m ** gd)) ** (R(1) ++ (((p.m ** p.beta) // p.sigma) ** gd)))

\* c: moist, salt, zb, zs, ne, w, ustar, mre, mim (mask)
Thresholds(p, c) ==
  LET nf == Len(p.sizes)
      u1 == [f \in 1..nf |-> Base(p, p.sizes[f])]
      u2 == [f \in 1..nf |-> IF p.th_moisture THEN Moist(p, u1[f], c.moist)
                             ELSE IF p.tide /\ (c.zb -- c.zs) \prec RNeg(p.eps) THEN Inf ELSE u1[f]]
      u3 == [f \in 1..nf |-> IF p.th_salt THEN Salty(p, u2[f], c.salt) ELSE u2[f]]
      gd == Rough(p, u3, c.w, c.ustar)
      u4 == [f \in 1..nf |-> IF p.th_sheltering /\ RFinite(u3[f]) THEN u3[f] ** Shelter(p, gd) ELSE u3[f]]
      u5 == [f \in 1..nf |-> (u4[f] ** c.mre) ++ c.mim]
      un == IF p.file THEN [f \in 1..nf |-> R(c.prescribed)] ELSE u5
  IN [f \in 1..nf |-> IF p.th_nelayer /\ c.zb \preceq (c.ne ++ "0.01") THEN Inf ELSE un[f]]

(* -------------------------------------------------- saturation concentration *)
\* t: rhoa, g, Cb, Ck, Cl, Cdk, acc; us: shear velocity, ut: threshold, u: grain speed, d: grain size
Cube(x) == x ** (x ** x)
Capacity(t, method, us, ut, u, d) ==
  LET rg == t.rhoa // t.g  dk == "0.8" ** ut IN
  IF ~(us \succ ut) /\ method # "dk" THEN R(0)                \* below the threshold
  ELSE IF method = "dk" /\ ~(us \succ dk) THEN R(0)
  ELSE CASE method = "bagnold" -> ((t.Cb ** rg) ** Cube(us -- ut)) // u
         [] method = "bagnold_gs" -> (((t.Cb ** RSqrt(d // "0.00025")) ** rg) ** Cube(us -- ut)) // u
         [] method = "kawamura" -> ((t.Ck ** rg) ** (((us ++ ut) ** (us ++ ut)) ** (us -- ut))) // u
         [] method = "lettau" -> ((t.Cl ** rg) ** ((us ** us) ** (us -- ut))) // u
         [] method = "dk" -> ((t.Cdk ** rg) ** (dk ** ((us ** us) -- (dk ** dk)))) // u
         [] method = "sauermann" -> ("0.7" ** rg) ** ((us ** us) -- (ut ** ut))
         [] method = "vanrijn_strypsteen" -> ((t.Cb ** rg) ** (Cube(us) -- Cube(ut))) // u
\* no transport where the air or the grains stand still
Saturation(t, method, ustar, us, ut, u, d) ==
  IF REq(ustar, 0) \/ REq(u, 0) THEN R(0) ELSE t.acc ** Capacity(t, method, us, ut, u, d)
=============================================================================
