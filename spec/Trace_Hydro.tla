----------------------------- MODULE Trace_Hydro -----------------------------
(* Events recorded from the water, groundwater and moisture of the real code. *)
EXTENDS Hydro, TraceLib
VARIABLE i

N(g) == Len(g)
All2(g, P(_, _)) == \A j \in 1..Len(g) : \A k \in 1..Len(g[1]) : P(j, k)
Some2(g, P(_, _)) == \E j \in 1..Len(g) : \E k \in 1..Len(g[1]) : P(j, k)
Same(a, b) == RSeqClose(a, b, "1e-10")

(* ---------------------------------------------------- water levels and waves *)
JudgeLev(ev) ==
  LET F == RForce([j \in 1..N(ev.z) |-> Levels(ev.c, ev.t, ev.z[j], ev.mt[j], ev.mw[j], ev.mr[j])])
      rows(f(_)) == [j \in 1..N(ev.z) |-> f(F[j])]
  IN Clause("lev:still-water-level", Same(ev.SWL, rows(LAMBDA r : r.SWL))) \cup
     Clause("lev:wave-height", Same(ev.Hs, rows(LAMBDA r : r.Hs))) \cup
     Clause("lev:wave-period", Same(ev.Tp, rows(LAMBDA r : r.Tp))) \cup
     Clause("lev:runup", Same(ev.R, rows(LAMBDA r : r.R))) \cup
     Clause("lev:setup", Same(ev.eta, rows(LAMBDA r : r.eta))) \cup
     Clause("lev:swash", \A j \in 1..N(ev.z) : \A k \in 1..Len(ev.z[j]) : RClose(ev.sigma[j][k], F[j].sigma, "1e-10")) \cup
     Clause("lev:total-water-level", Same(ev.TWL, rows(LAMBDA r : r.TWL))) \cup
     Clause("lev:dynamic-water-level", Same(ev.DSWL, rows(LAMBDA r : r.DSWL))) \cup
     Clause("lev:mixing-wave-height", Same(ev.Hsmix, rows(LAMBDA r : r.Hsmix))) \cup
     Clause("lev:surface-not-below-the-bed", Same(ev.zs, rows(LAMBDA r : r.zs))) \cup
     Clause("lev:depth-limited", ev.masked \/ All2(ev.z, LAMBDA j, k : ev.Hs[j][k] \preceq ((ev.c.gamma ** Depth(ev.SWL[j][k], ev.z[j][k])) ++ "1e-10"))) \cup
     Clause("lev:bed-untouched", RSeqClose(ev.z, ev.z1, "1e-15"))
\* an external model provides the water level and/or the waves
WetX(ev, j, k) == (Mask(ev.zs0[j][k], ev.mt[j][k]) -- ev.z[j][k]) \succ ("2" ** ev.eps)
JudgeExt(ev) ==
  LET swl(j, k) == Mask(ev.zs0[j][k], ev.mt[j][k])
      wet == {w \in (1..N(ev.z)) \X (1..Len(ev.z[1])) : WetX(ev, w[1], w[2])}
      d2(w, j, k) == (w[1]-j)*(w[1]-j) + (w[2]-k)*(w[2]-k)
      near(j, k) == {w \in wet : \A v \in wet : d2(w, j, k) <= d2(v, j, k)}
      st(j, k) == Stockdon(ev.Hs[j][k], ev.Tp[j][k], ev.slope)
  IN (IF ev.waves THEN
       Clause("ext:wave-height", All2(ev.z, LAMBDA j, k : RClose(ev.Hs[j][k], Mask(ev.Hs0[j][k], ev.mw[j][k]), "1e-12"))) \cup
       Clause("ext:wave-period", All2(ev.z, LAMBDA j, k : RClose(ev.Tp[j][k], Mask(ev.Tp0[j][k], ev.mw[j][k]), "1e-12"))) \cup
       Clause("ext:runup", All2(ev.z, LAMBDA j, k : RClose(ev.R[j][k], Mask(st(j, k).R, ev.mr[j][k]), "1e-10"))) \cup
       Clause("ext:setup", All2(ev.z, LAMBDA j, k : RClose(ev.eta[j][k], Mask(st(j, k).eta, ev.mr[j][k]), "1e-10") /\ RClose(ev.sigma[j][k], st(j, k).sigma, "1e-10"))) \cup
       Clause("ext:total-water-level", All2(ev.z, LAMBDA j, k : RClose(ev.TWL[j][k], ev.SWL[j][k] ++ ev.R[j][k], "1e-12") /\ RClose(ev.DSWL[j][k], ev.SWL[j][k], "1e-12")))
      ELSE {}) \cup
     (IF ev.levels THEN
       Clause("ext:water-level-of-wet-cells", All2(ev.z, LAMBDA j, k : WetX(ev, j, k) => RClose(ev.SWL[j][k], swl(j, k), "1e-12"))) \cup
       Clause("ext:dry-cells-take-the-nearest", All2(ev.z, LAMBDA j, k : ~WetX(ev, j, k) => \E w \in near(j, k) : RClose(ev.SWL[j][k], swl(w[1], w[2]), "1e-12"))) \cup
       Clause("ext:surface-not-below-the-bed", All2(ev.z, LAMBDA j, k : RClose(ev.zs[j][k], RMax(ev.SWL[j][k], ev.z[j][k]), "1e-12")))
      ELSE {})

(* -------------------------------------------------------------- groundwater *)
NSub(f) == IF RToInt(f) >= 1 THEN (IF REq(RFloor(f), f) THEN RToInt(f) ELSE RToInt(f) + 1) ELSE 1
RECURSIVE Table(_, _, _, _, _)
Table(ev, j, g, s, n) ==
  IF s = n THEN g
  ELSE LET dt == ev.dt // n
           L == Levels(ev.c, ev.t ++ (dt ** s), ev.z[j], ev.mt[j], ev.mw[j], ev.mr[j])
       IN Table(ev, j, GwStep(ev.q, g, ev.z[j], ev.x[j], ev.ds[j], L.DSWL, L.TWL, ev.mg[j], ev.c.wave, dt), s + 1, n)
StartLevel(ev, j) == IF ev.start THEN [k \in 1..Len(ev.z[j]) |-> R(ev.q.start)] ELSE ev.g0[j]
JudgeGw(ev) ==
  LET n == NSub(ev.tfac)
      last(j) == Levels(ev.c, ev.t ++ ((ev.dt // n) ** (n-1)), ev.z[j], ev.mt[j], ev.mw[j], ev.mr[j]).DSWL
  IN Clause("gw:table", \A j \in 1..N(ev.z) : RSeqClose(ev.g[j], Table(ev, j, StartLevel(ev, j), 0, n), "1e-8")) \cup
     Clause("gw:remembers-the-previous-table", \A j \in 1..N(ev.z) : RSeqClose(ev.gp[j], StartLevel(ev, j), "1e-14")) \cup
     Clause("gw:wetting", All2(ev.z, LAMBDA j, k : ev.wet[j][k] = (~ev.start /\ ev.g0[j][k] \succ ev.gp0[j][k]))) \cup
     Clause("gw:not-above-dry-ground", ev.gmasked \/ \A j \in 1..N(ev.z) : LET d == RForce(last(j)) IN
         \A k \in 1..Len(ev.z[j]) : ev.g[j][k] \preceq (RMax(ev.z[j][k], d[k]) ++ "1e-10")) \cup
     Clause("gw:water-level-where-wet", \A j \in 1..N(ev.z) : LET d == RForce(last(j)) IN
         \A k \in 1..Len(ev.z[j]) : ev.z[j][k] \prec d[k] => RClose(ev.g[j][k], d[k], "1e-10")) \cup
     Clause("gw:bed-untouched", RSeqClose(ev.z, ev.z1, "1e-15"))
\* unknown boundary conditions are refused
JudgeBnd(ev) == Clause("gw:unknown-boundary-refused", ev.refused)

(* -------------------------------------------------------- moisture and salt *)
WetI(ev, j, k) == (ev.TWL[j][k] -- ev.z[j][k]) \succ ev.eps
JudgeInf(ev) ==
  Clause("inf:as-specified", All2(ev.z, LAMBDA j, k : RClose(ev.m[j][k], Infiltration(ev.m0[j][k], WetI(ev, j, k), ev.dt, ev.T, ev.porosity), "1e-11"))) \cup
  Clause("inf:bounds", All2(ev.z, LAMBDA j, k : ev.m[j][k] \succeq 0 /\ ev.m[j][k] \preceq ev.porosity)) \cup
  Clause("inf:flooded-is-saturated", All2(ev.z, LAMBDA j, k : WetI(ev, j, k) => REq(ev.m[j][k], ev.porosity))) \cup
  Clause("inf:dry-cells-do-not-get-wetter", All2(ev.z, LAMBDA j, k : ~WetI(ev, j, k) => ev.m[j][k] \preceq ev.m0[j][k]))

JudgeSalt(ev) ==
  Clause("salt:as-specified", All2(ev.z, LAMBDA j, k : RClose(ev.s[j][k], Salt(ev.s0[j][k], WetI(ev, j, k), ev.dt, ev.T, ev.rain, ev.thick), "1e-11"))) \cup
  Clause("salt:bounds", All2(ev.z, LAMBDA j, k : ev.s[j][k] \succeq 0 /\ ev.s[j][k] \preceq 1)) \cup
  Clause("salt:deeper-layers-keep-theirs", RSeqClose(ev.deep, ev.deep0, "1e-15"))

\* cell j, k of the field f of a record of fields
At(r, f, j, k) == r[f][j][k]
Cell(r, j, k) == [wetting |-> r.wetting[j][k], sw |-> r.sw[j][k], sd |-> r.sd[j][k], hd |-> R(r.hd[j][k]), swm |-> R(r.swm[j][k]), sdm |-> R(r.sdm[j][k]),
                  wh |-> R(r.wh[j][k]), dh |-> R(r.dh[j][k]), m |-> R(r.m[j][k]), swr |-> R(r.swr[j][k])]
Wc(ev) == ev.w
Dc(ev) == ev.d
JudgeCell(ev, j, k) ==
  LET a == [Cell(ev.a, j, k) EXCEPT !.wetting = ev.b.wetting[j][k]]        \* wetting is that of the previous step
      b == Cell(ev.b, j, k)
      w == ev.w   d == ev.d
      gw == ev.gw[j][k]   gp == ev.gp[j][k]
      h == R(Suction(ev.z[j][k], gw))
      wet == ev.TWL[j][k] \succ ev.z[j][k]
      evap == R(Evaporation(ev.met, ev.uw[j][k], ev.zw, ev.cpair) // "86400000")
      rain == ev.met.RH // "3600000"
      rv == Reversal(a, gw, gp)
      cv == Curve(a, gw, gp)
      F(x) == (a.wh ++ (((w[2] -- a.wh) // RMax(w[2] -- Retention(w, x), "0.0001")) ** (Retention(d, x) -- Retention(w, x)))) -- a.sdm
      scan == ev.scanning /\ ~ev.start
      swrOk == IF ~ev.scanning THEN RClose(b.swr, Retention(IF a.wetting THEN w ELSE d, h), "1e-11")
               ELSE IF ev.start THEN RClose(b.swr, Retention(w, h), "1e-11")
               ELSE RClose(b.swr, OnCurve(w, d, h, b.hd, cv), "1e-9")
  IN Clause("surf:moisture", RClose(b.m, Surface(ev.e, a.m, wet, rain, evap, b.swr, ev.dt), "1e-10")) \cup
     Clause("surf:bounds", b.m \succeq RMin(ev.e.res, a.m) /\ b.m \preceq ev.e.sat) \cup
     Clause("surf:capillary-rise", swrOk) \cup
     Clause("surf:flooded-is-saturated", wet => REq(b.m, ev.e.sat)) \cup
     Clause("surf:start-of-scanning", (ev.scanning /\ ev.start) => ~b.sw /\ ~b.sd /\ RClose(b.hd, h, "1e-11")) \cup
     Clause("surf:suction-at-reversal", scan =>
        CASE rv = "none" -> REq(b.hd, a.hd)
          [] rv = "main" -> RClose(b.hd, h, "1e-11")
          [] rv = "drying" -> LET th == RMin((((a.swm -- a.wh) ** (d[2] -- a.wh)) // (a.dh -- a.wh)) ++ a.wh, w[2]) IN
                RNear(b.hd, SuctionOf(w, th), "1e-7", "1e-6")
          [] rv = "wetting" -> F(b.hd) \preceq "0.0100001" /\ (b.hd \preceq "0.0101" \/ F(b.hd -- "0.01") \succ "0.0099999")) \cup
     Clause("surf:leaves-the-scanning-curve", scan =>
        /\ b.sw = StaysW(w, d, h, b.hd, cv) \/ (cv = "sw" /\ RClose(ScanWet(w, d, h, b.hd), Retention(w, h), "1e-10") /\ b.sw = (b.swm \succ b.wh))
        /\ b.sd = StaysD(w, d, h, b.hd, cv) \/ (cv = "sd" /\ RClose(ScanDry(w, d, h, b.hd), Retention(d, h), "1e-10") /\ b.sd = (b.sdm \prec b.dh))) \cup
     \* a new drying curve starts at the moisture reached on the wetting curve that is left (at the suction of that moment)
     Clause("surf:continuous-at-reversal", (scan /\ rv = "drying") =>
        LET x == a.wh ++ (((Retention(w, b.hd) -- a.wh) // RMax(d[2] -- a.wh, "0.0001")) ** (a.dh -- a.wh)) IN
          RAbs(x -- a.swm) \preceq "1e-6" \/ b.hd \preceq "1e-9")
JudgeSurf(ev) == UNION {JudgeCell(ev, j, k) : j \in 1..N(ev.z), k \in 1..Len(ev.z[1])}

(* --------------------------------------------------------------------------- *)
Judge(ev) == IF "exc" \in DOMAIN ev /\ ev.exc # "" THEN {SCat(ev.kind, ":no-exception")} ELSE
   CASE ev.kind = "lev" -> JudgeLev(ev) [] ev.kind = "ext" -> JudgeExt(ev) [] ev.kind = "gw" -> JudgeGw(ev) [] ev.kind = "bnd" -> JudgeBnd(ev)
     [] ev.kind = "inf" -> JudgeInf(ev) [] ev.kind = "salt" -> JudgeSalt(ev) [] ev.kind = "surf" -> JudgeSurf(ev)
Tags(ev) == {ev.kind} \cup IF "exc" \in DOMAIN ev /\ ev.exc # "" THEN {"exception"} ELSE
   CASE ev.kind = "lev" -> Tag("runup", ev.c.runup) \cup Tag("masked", ev.masked) \cup Tag("beyond-the-series", Len(ev.c.tt) > 0 /\ ev.t \succ ev.c.tt[Len(ev.c.tt)]) \cup
            Tag("broken-waves", Some2(ev.z, LAMBDA j, k : ev.Hs[j][k] \succ 0 /\ REq(ev.Hs[j][k], ev.c.gamma ** Depth(ev.SWL[j][k], ev.z[j][k]))))
     [] ev.kind = "ext" -> Tag("ext-dry", ev.levels /\ Some2(ev.z, LAMBDA j, k : ~WetX(ev, j, k)))
     [] ev.kind = "gw" -> Tag("gw-start", ev.start) \cup Tag("seepage", ev.q.seepage) \cup Tag("static", ev.q.static) \cup
            Tag("runup-beyond-the-top", ev.c.runup /\ Some2(ev.z, LAMBDA j, k : LET l == Levels(ev.c, ev.t, ev.z[j], ev.mt[j], ev.mw[j], ev.mr[j])
                   sh == Shoreline(ev.z[j], l.DSWL)  ru == AtLeast(FirstAbove(ev.z[j], l.TWL) - 1, sh) IN k = 1 /\ (ru - sh) - ((2 * (ru - sh)) \div 3) > 1)) \cup Tag("wetting", Some2(ev.z, LAMBDA j, k : ev.wet[j][k]))
     [] ev.kind = "surf" -> {SCat("reversal-", Reversal([Cell(ev.a, j, k) EXCEPT !.wetting = ev.b.wetting[j][k]], ev.gw[j][k], ev.gp[j][k])) :
                               j \in 1..N(ev.z), k \in 1..Len(ev.z[1])} \cup
                            {SCat("curve-", Curve([Cell(ev.a, j, k) EXCEPT !.wetting = ev.b.wetting[j][k]], ev.gw[j][k], ev.gp[j][k])) :
                               j \in 1..N(ev.z), k \in 1..Len(ev.z[1])}
     [] ev.kind = "inf" -> Tag("flooded", Some2(ev.z, LAMBDA j, k : WetI(ev, j, k)))
     [] OTHER -> {}

TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
