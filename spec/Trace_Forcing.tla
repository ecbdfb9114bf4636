---------------------------- MODULE Trace_Forcing ----------------------------
(* Wind fields, thresholds and saturation concentrations of the real code.    *)
EXTENDS Threshold, Wind, TraceLib
VARIABLE i

\* prefix C17
JudgeWind(ev) ==
  LET ds == [k \in 1..Len(ev.ds) |-> Nautical(ev.ds[k], ev.convention)]
      u == RAbs(Circular(ev.t, ev.ts, ev.us))
      x == Circular(ev.t, ev.ts, [k \in 1..Len(ds) |-> RSin(Rad(ds[k]))])
      y == Circular(ev.t, ev.ts, [k \in 1..Len(ds) |-> RCos(Rad(ds[k]))])
      defined == (RAbs(x) ++ RAbs(y)) \succ "1e-6"
      d == Direction(ev.t, ev.ts, ds)
      a == Rad(ev.alfa)
      e == <<RCos(a), RNeg(RSin(a))>>  nn == <<RSin(a), RCos(a)>>
      N == 1..Len(ev.uw)
      z0(k) == Z0(ev.q, ev.method, ev.w[k], u)
      us(k) == Ustar(u, ev.q, z0(k))
      fin(k) == RFinite(us(k))
      tau(k) == Stress(us(k), ev.q.rhoa)
  IN Clause("wind:speed", \A k \in N : RNear(ev.uw[k], u, "1e-9", "1e-9")) \cup
     Clause("wind:direction", defined => \A k \in N : RClose(RSin(Rad(ev.udir[k])), RSin(Rad(d)), "1e-8") /\ RClose(RCos(Rad(ev.udir[k])), RCos(Rad(d)), "1e-8")) \cup
     Clause("wind:components", defined => \A k \in N : RClose(ev.uws[k], Along(u, d, e), "1e-7") /\ RClose(ev.uwn[k], Along(u, d, nn), "1e-7")) \cup
     Clause("wind:magnitude", \A k \in N : RClose(RSqrt((ev.uws[k] ** ev.uws[k]) ++ (ev.uwn[k] ** ev.uwn[k])), u, "1e-9")) \cup
     Clause("wind:roughness", \A k \in N : fin(k) => RNear(ev.ustar[k], RAbs(us(k)), "1e-8", "1e-10")) \cup
     Clause("wind:shear-along-the-wind", defined => \A k \in N : fin(k) => RNear(ev.ustars[k], Along(us(k), d, e), "1e-7", "1e-8") /\ RNear(ev.ustarn[k], Along(us(k), d, nn), "1e-7", "1e-8")) \cup
     Clause("wind:stress", \A k \in N : fin(k) => RNear(ev.tau[k], tau(k), "1e-8", "1e-10")) \cup
     Clause("wind:stress-magnitude", \A k \in N : fin(k) => RClose((ev.taus[k] ** ev.taus[k]) ++ (ev.taun[k] ** ev.taun[k]), ev.tau[k] ** ev.tau[k], "1e-9")) \cup
     Clause("wind:stress-along-the-wind", defined => \A k \in N : fin(k) => RNear(ev.taus[k] ** u, tau(k) ** ev.uws[k], "1e-7", "1e-7") /\ RNear(ev.taun[k] ** u, tau(k) ** ev.uwn[k], "1e-7", "1e-7")) \cup
     Clause("wind:flat-bed-values", RSeqClose(ev.flat, ev.cur, "1e-14"))

JudgeThr(ev) ==
  LET want(k) == Thresholds(ev.p, ev.c[k]) IN
  Clause("thr:as-specified", \A k \in 1..Len(ev.c) : LET v == want(k) IN \A f \in 1..Len(v) :
     IF RFinite(v[f]) THEN RNear(ev.uth[k][f], v[f], "1e-9", "1e-12") ELSE ~RFinite(ev.uth[k][f]) /\ ev.uth[k][f] \succ 0) \cup
  Clause("thr:fluid-threshold", \A k \in 1..Len(ev.c) : \A f \in 1..Len(ev.uth[k]) : REq(ev.uthf[k][f], ev.uth[k][f])) \cup
  Clause("thr:grain-size-threshold", \A k \in 1..Len(ev.c) : \A f \in 1..Len(ev.uth[k]) :
     RNear(ev.uth0[k][f], IF ev.p.file THEN R(ev.c[k].prescribed) ELSE Base(ev.p, ev.p.sizes[f]), "1e-10", 0))

JudgeEqu(ev) ==
  LET N == 1..Len(ev.c)
      F == 1..Len(ev.t.sizes)
      ok(v, k, f, us, ut) == RNear(v, Saturation(ev.t, ev.method, ev.c[k].ustar, us, ut[k][f], ev.u[k][f], ev.t.sizes[f]), "1e-9", "1e-15")
  IN Clause("equ:Cu", \A k \in N : \A f \in F : ok(ev.Cu[k][f], k, f, ev.c[k].ustar, ev.uth)) \cup
     Clause("equ:Cuf", \A k \in N : \A f \in F : ok(ev.Cuf[k][f], k, f, ev.c[k].ustar, ev.uthf)) \cup
     Clause("equ:Cu0", \A k \in N : \A f \in F : ok(ev.Cu0[k][f], k, f, ev.c[k].ustar0, ev.uth0)) \cup
     Clause("equ:non-negative", \A k \in N : \A f \in F : ev.Cu[k][f] \succeq 0 /\ ev.Cuf[k][f] \succeq 0 /\ ev.Cu0[k][f] \succeq 0) \cup
     Clause("equ:zero-below-threshold", \A k \in N : \A f \in F : (ev.c[k].ustar \preceq ((IF ev.method = "dk" THEN R("0.8") ELSE R(1)) ** ev.uth[k][f])) => REq(ev.Cu[k][f], 0)) \cup
     Clause("equ:grain-speed", \A k \in N : \A f \in F :
        CASE ev.speed = "windspeed" -> REq(ev.u[k][f], ev.c[k].uw) /\ REq(ev.ugs[k][f], ev.c[k].uws) /\ REq(ev.ugn[k][f], ev.c[k].uwn)
          [] ev.speed = "constant" -> LET v == ConstantSpeed(ev.c[k].ustars, ev.c[k].ustarn, ev.c[k].uws, ev.c[k].uwn) IN
                RClose(ev.ugs[k][f], v[1], "1e-9") /\ RClose(ev.ugn[k][f], v[2], "1e-9") /\
                RClose(ev.u[k][f], RSqrt((v[1] ** v[1]) ++ (v[2] ** v[2])), "1e-9")
          [] ev.speed = "duran" ->
                LET c == ev.c[k]
                    v == RForce(DuranSpeed(ev.t, ev.t.sizes[f], ev.uth0[k][f], <<c.ustars, c.ustarn>>, <<c.uws, c.uwn>>, c.ustar0, <<c.hs, c.hn>>, c.sep)) IN
                \* next to the threshold and to the switch of the direction either side may be taken
                (RAbs(c.ustar -- ev.uth0[k][f]) \succ "1e-9" /\ RAbs(c.ustar -- "0.05") \succ "1e-9") =>
                RClose(ev.ugs[k][f], v[1], "1e-8") /\ RClose(ev.ugn[k][f], v[2], "1e-8") /\
                RClose(ev.u[k][f], Len2(v), "1e-8") /\ RClose(ev.u0[k][f], v[3], "1e-8")
          [] OTHER -> FALSE)

JudgeErr(ev) == Clause("err:rejected", ev.exc = "ValueError")

Judge(ev) == IF ev.kind = "err" THEN JudgeErr(ev) ELSE IF ev.exc # "" THEN {SCat(ev.kind, ":no-exception")} ELSE
   CASE ev.kind = "wind" -> JudgeWind(ev) [] ev.kind = "thr" -> JudgeThr(ev) [] ev.kind = "equ" -> JudgeEqu(ev)
Tags(ev) == {ev.kind} \cup IF ev.exc # "" THEN {"exception"} ELSE
   CASE ev.kind = "wind" -> {ev.method, ev.convention} \cup Tag("beyond-series", ev.t \succ ev.ts[Len(ev.ts)]) \cup Tag("calm", \E k \in 1..Len(ev.uw) : REq(ev.uw[k], 0))
     [] ev.kind = "thr" -> (IF ev.p.th_moisture THEN {ev.p.method} ELSE {}) \cup Tag("sheltering", ev.p.th_sheltering) \cup Tag("salt", ev.p.th_salt) \cup Tag("prescribed", ev.p.file)
     [] ev.kind = "equ" -> {ev.method, ev.speed} \cup Tag("transport", \E k \in 1..Len(ev.c) : \E f \in 1..Len(ev.t.sizes) : ev.Cu[k][f] \succ 0)
     [] OTHER -> {}

TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
