----------------------------- MODULE Trace_Shear -----------------------------
(* Wind shear over topography and behind fences, from the real code.          *)
EXTENDS Shear, TraceLib
VARIABLE i
N(ev) == 1..Len(ev.tau)
\* shear stress and shear velocity belong together and point the same way
Consistent(ev) ==
  Clause("shear:stress-and-velocity", \A k \in N(ev) : RNear(ev.tau[k], (ev.rhoa ** ev.ustar[k]) ** ev.ustar[k], "1e-8", "1e-12")) \cup
  Clause("shear:same-direction", \A k \in N(ev) : RNear(ev.taus[k] ** ev.ustar[k], ev.tau[k] ** ev.ustars[k], "1e-8", "1e-10") /\ RNear(ev.taun[k] ** ev.ustar[k], ev.tau[k] ** ev.ustarn[k], "1e-8", "1e-10")) \cup
  Clause("shear:magnitude", \A k \in N(ev) : RNear(ev.tau[k] ** ev.tau[k], (ev.taus[k] ** ev.taus[k]) ++ (ev.taun[k] ** ev.taun[k]), "1e-8", "1e-14")) \cup
  Clause("shear:finite", RSeqFinite(ev.tau) /\ RSeqFinite(ev.ustars) /\ RSeqFinite(ev.ustarn))
\* a flat bed, at any level, on any grid, for any wind
JudgeFlat(ev) == Consistent(ev) \cup
  Clause("flat:undisturbed", \A k \in N(ev) : RClose(ev.taus[k], ev.taus0[k], "1e-8") /\ RClose(ev.taun[k], ev.taun0[k], "1e-8")) \cup
  Clause("flat:no-bubble", \A k \in 1..Len(ev.hsep) : RNear(ev.hsep[k], 0, 0, "1e-9"))
\* the same topography, raised; or with a stronger wind
JudgePair(ev) ==
  Clause(SCat("pair:", ev.what), RSeqClose(ev.b, [q \in 1..Len(ev.a) |-> [k \in 1..Len(ev.a[q]) |-> ev.a[q][k] ** ev.factor]], "1e-8"))
\* a hill or dune in two dimensions
JudgeHill(ev) == Consistent(ev) \cup
  Clause("hill:not-against-the-wind", \A k \in N(ev) : ((ev.taus[k] ** ev.es) ++ (ev.taun[k] ** ev.en)) \succeq "-1e-9") \cup
  (IF ~ev.sep THEN {} ELSE
   Clause("hill:bubble-not-below-the-bed", \A k \in N(ev) : ev.hsep[k] \succeq "-1e-9") \cup
   Clause("hill:bubble-surface", \A k \in N(ev) : RClose(ev.zsep[k], ev.zb[k] ++ ev.hsep[k], "1e-10")) \cup
   Clause("hill:still-in-the-bubble", ev.inside \preceq "1e-9"))
\* one dimension: the formula of the perturbation, the bubble on top
JudgeLine(ev) == Consistent(ev) \cup
  LET f == Profile(ev.zb, ev.dx, ev.forward)
      b(k) == IF ev.sep THEN Bubble(ev.hsep[k]) ELSE R(1)
  IN Clause("line:perturbation", \A k \in N(ev) : RClose(ev.taus[k], (ev.taus0[k] ** f[k]) ** b(k), "1e-8") /\ RClose(ev.taun[k], (ev.taun0[k] ** f[k]) ** b(k), "1e-8")) \cup
     (IF ~ev.sep THEN {} ELSE
      Clause("line:bubble-not-below-the-bed", \A k \in N(ev) : ev.hsep[k] \succeq "-1e-9") \cup
      Clause("line:bubble-surface", \A k \in N(ev) : RClose(ev.zsep[k], ev.zb[k] ++ ev.hsep[k], "1e-10")) \cup
      (LET w == RForce(IF ev.forward THEN ev.zb ELSE Rev(ev.zb))
           z == RForce(IF ev.forward THEN ev.zsep ELSE Rev(ev.zsep)) IN
       Clause("line:bubble-shape", PlainLee(w, ev.dl, ev.mu, ev.c) => RSeqClose(z, BubbleTop(w, ev.dl, ev.dx, ev.mu, ev.c), "1e-7"))) \cup
      Clause("line:bubble-needs-steep-lee", Stalls(ev.zb, ev.dl, ev.mu, ev.forward) \/ \A k \in N(ev) : RNear(ev.hsep[k], 0, 0, "1e-9")))
\* fences in one dimension
JudgeFence1(ev) == Consistent(ev) \cup
  LET want(k) == RMax(ev.ustar0[k] ** (R(1) -- Lee(ev.x, ev.h, k, ev.c1, ev.i0, ev.forward)), "0.01") IN
  Clause("fence:lee", \A k \in N(ev) : RNear(ev.ustar[k], want(k), "1e-9", "1e-12")) \cup
  Clause("fence:direction", \A k \in N(ev) : RClose(ev.ustars[k] ** ev.ustar0[k], ev.ustar[k] ** ev.ustars0[k], "1e-9") /\ RClose(ev.ustarn[k] ** ev.ustar0[k], ev.ustar[k] ** ev.ustarn0[k], "1e-9"))
\* fences in two dimensions: reduced behind a fence only, never turned
Far(ev, k) == \A q \in 1..Len(ev.fx) :
   LET dx == ev.x[k] -- ev.fx[q]  dy == ev.y[k] -- ev.fy[q]
       along == (dx ** ev.es) ++ (dy ** ev.en)  cross == RAbs((dy ** ev.es) -- (dx ** ev.en))
   IN along \prec RNeg(ev.margin) \/ cross \succ ev.margin \/ along \succ ((R(20) ** ev.fh[q]) ++ ev.margin)
JudgeFence2(ev) == Consistent(ev) \cup
  Clause("fence:not-increased", \A k \in N(ev) : ev.ustar[k] \preceq (ev.ustar0[k] ++ "1e-9")) \cup
  Clause("fence:not-turned", \A k \in N(ev) : RClose(ev.ustars[k] ** ev.ustar0[k], ev.ustar[k] ** ev.ustars0[k], "1e-9") /\ RClose(ev.ustarn[k] ** ev.ustar0[k], ev.ustar[k] ** ev.ustarn0[k], "1e-9")) \cup
  Clause("fence:nothing-elsewhere", \A k \in N(ev) : Far(ev, k) => RClose(ev.ustar[k], ev.ustar0[k], "1e-9")) \cup
  Clause("fence:sheltered", \A q \in 1..Len(ev.at) : ev.ustar[ev.at[q]] \preceq (ev.ustar0[ev.at[q]] ** "0.6"))
\* the height of fences in a changing bed
JudgeFenceH(ev) ==
  Clause("fence:height", \A k \in 1..Len(ev.z) : RNear(ev.h1[k], FenceUp(ev.top[k], ev.z[k], ev.init[k]), "1e-10", "1e-12")) \cup
  Clause("fence:lost", \A k \in 1..Len(ev.z) : REq(ev.init1[k], IF FenceLost(ev.top[k], ev.z[k], ev.init[k]) THEN R(0) ELSE ev.init[k])) \cup
  Clause("fence:top-stays", RSeqClose(ev.top, ev.top0, "0"))
Judge(ev) == IF ev.exc # "" THEN {SCat(ev.kind, ":no-exception")} ELSE
   CASE ev.kind = "flat" -> JudgeFlat(ev) [] ev.kind = "pair" -> JudgePair(ev) [] ev.kind = "hill" -> JudgeHill(ev) [] ev.kind = "line" -> JudgeLine(ev)
     [] ev.kind = "fence1" -> JudgeFence1(ev) [] ev.kind = "fence2" -> JudgeFence2(ev) [] ev.kind = "fenceh" -> JudgeFenceH(ev)
Tags(ev) == {ev.kind} \cup IF ev.exc # "" THEN {"exception"} ELSE
   CASE ev.kind \in {"hill", "line"} -> Tag("shape-judged", ev.kind = "line" /\ ev.sep /\ (LET w == RForce(IF ev.forward THEN ev.zb ELSE Rev(ev.zb)) IN
          PlainLee(w, ev.dl, ev.mu, ev.c) /\ Brinks(w, ev.dl, ev.mu) # {})) \cup Tag("bubble", ev.sep /\ \E k \in N(ev) : ev.hsep[k] \succ "0.01") \cup Tag("bed-below-zero", \E k \in N(ev) : ev.zb[k] \prec 0)
     [] ev.kind = "pair" -> {ev.what}
     [] ev.kind = "fenceh" -> Tag("buried", \E k \in 1..Len(ev.z) : ev.init[k] \succ "0.1" /\ (ev.top[k] -- ev.z[k]) \prec "0.1") \cup Tag("eroded-out", \E k \in 1..Len(ev.z) : FenceLost(ev.top[k], ev.z[k], ev.init[k]))
     [] OTHER -> {}
TraceInit == i = 1
TraceNext == /\ i <= Len(Events)
             /\ Report(i, Judge(Events[i]), Tags(Events[i]))
             /\ Finish(i)
             /\ i' = i + 1
=============================================================================
